// Points on edges and interfaces, and neighbours that are parametrised differently.
#pragma once
#include "shell.h"
namespace kl {
struct WPt { char k; index_t patch, side, cond, el; double w; Vec u; };
// points of a side, with the coordinate along it
inline void edge(const gsBasis<real_t> & b, index_t side, index_t quB, std::vector<Vec> & u, std::vector<double> & w, std::vector<index_t> & el, std::vector<double> & t)
{
    const bool vert=side<3; const std::vector<double> B=Problem::breaks(b,vert?1:0), O=Problem::breaks(b,vert?0:1); std::vector<double> gx,gw;
    Problem::gauss((index_t)(b.degree(vert?1:0)+quB+0.5),gx,gw);
    const double fix=(side==1||side==3)?O.front():O.back();
    for (size_t i=0;i+1<B.size();i++) for (size_t a=0;a!=gx.size();a++)
    { const double h=B[i+1]-B[i], x=B[i]+h*gx[a]; Vec v(2); if (vert) v<<fix,x; else v<<x,fix; u.push_back(v); w.push_back(gw[a]*h); el.push_back(i); t.push_back(x); }
}
// neighbouring patches need not be parametrised alike: reverses and swaps the directions of the last patch
inline void flipLast(Problem & P, index_t f)
{
    const index_t np=P.mp.nPatches(); if (np<2) return; gsMultiPatch<real_t> q;
    for (index_t p=0;p!=np;p++)
    {
        gsTensorBSpline<2,real_t> b=dynamic_cast<const gsTensorBSpline<2,real_t>&>(P.mp.patch(p));
        if (p==np-1) { if (f&1) b.reverse(0); if (f&2) b.reverse(1); if (f&4) b.swapDirections(0,1); }
        q.addPatch(b);
    }
    q.computeTopology(1e-9); q.addAutoBoundaries(); P.mp=q; P.basis=gsMultiBasis<real_t>(P.mp);   // the materials were given the geometry by address
}
// pairs of points: on the first side of every interface, and the same place on the neighbour
inline void pairs(const Problem & P, const gsBoxTopology::ifContainer & ifc, index_t quB, std::vector<WPt> & pts)
{
    for (size_t k=0;k!=ifc.size();k++)
    {
        const patchSide l=ifc[k].first(), r=ifc[k].second(); std::vector<Vec> u; std::vector<double> w,tt; std::vector<index_t> el;
        edge(P.basis.basis(l.patch),l.side().index(),quB,u,w,el,tt);
        for (size_t q=0;q!=u.size();q++)
        {
            WPt x; x.k='l'; x.patch=l.patch; x.side=l.side().index(); x.cond=k+1; x.el=el[q]; x.w=w[q]; x.u=u[q]; pts.push_back(x);
            // the same place on the neighbour: at the same or the opposite coordinate
            const index_t rs=r.side().index(); const bool vert=rs<3; const double fix=(rs==1||rs==3)?0:1; Vec a(2),b(2); if (vert) { a<<fix,tt[q]; b<<fix,1-tt[q]; } else { a<<tt[q],fix; b<<1-tt[q],fix; }
            const Mat X=P.mp.patch(l.patch).eval(u[q]); const double da=(P.mp.patch(r.patch).eval(a)-X).norm(), db=(P.mp.patch(r.patch).eval(b)-X).norm();
            if (std::min(da,db)>1e-8) GISMO_ERROR("patches do not match");
            x.k='r'; x.patch=r.patch; x.side=rs; x.u=da<db?a:b; pts.push_back(x);
        }
    }
}
inline std::string atPts(const std::vector<WPt> & pts, const gsMultiPatch<real_t> & f)
{
    std::ostringstream o; o<<'[';
    for (size_t k=0;k!=pts.size();k++)
    {
        if (k) o<<','; const gsGeometry<real_t> & q=f.patch(pts[k].patch); Mat u=pts[k].u, x=q.eval(u), X=Mat::Zero(3,1); X.topRows(q.geoDim())=x;
        o<<"{\"x\":["; for (int i=0;i!=3;i++) { if (i) o<<','; putReal(o,X(i,0)); } o<<"],\"s\":"<<surf(q,u,0)<<'}';
    }
    o<<']'; return o.str();
}
inline std::string ptsJs(const std::vector<WPt> & pts)
{
    std::ostringstream ps; ps<<'[';
    for (size_t k=0;k!=pts.size();k++) { if (k) ps<<','; ps<<Rec().s("k",std::string(1,pts[k].k)).i("patch",pts[k].patch+1).i("side",pts[k].side).i("cond",pts[k].cond).i("el",pts[k].el).r("w",pts[k].w).str(); }
    ps<<']'; return ps.str();
}
} // namespace kl
