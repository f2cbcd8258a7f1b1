// Material definitions shared by the material-level harnesses.
#pragma once
#include "kl.h"
namespace kl {
// affine fields  c0*(1+gx*x+gy*y), known to the specification by their coefficients
struct Field { double c, gx, gy;
    std::string expr() const { std::ostringstream s; s.precision(17); s << "(" << c << ")*(1+(" << gx << ")*x+(" << gy << ")*y)"; return s.str(); }
    FunPtr fun(index_t d) const { return (gx == 0 && gy == 0) ? cfun(c,d) : efun(expr(),d); }
    double at(double x, double y) const { return c*(1+gx*x+gy*y); } };
struct MatDef
{
    std::string law, impl; bool comp; index_t d;
    Field thick, rho; std::vector<Field> par;
    std::vector<FunPtr> keep;           // owns the functions handed to the library
    int matCode() const { return law=="SvK"?0:law=="NH"?1:law=="NHx"?2:law=="MR"?3:law=="OG"?4:99; }
    int implCode() const { return impl=="A"?1:impl=="G"?2:impl=="S"?3:impl=="C"?0:99; }
    gsMaterialMatrixBase<real_t>::uPtr make(const gsMultiPatch<real_t> & mp)
    {
        keep.clear();
        std::vector<gsFunctionSet<real_t>*> p;
        for (size_t k=0;k!=par.size();k++) { keep.push_back(par[k].fun(d)); p.push_back(keep.back().get()); }
        keep.push_back(thick.fun(d)); gsFunctionSet<real_t> & t = *keep.back();
        keep.push_back(rho.fun(d));   gsFunctionSet<real_t> & r = *keep.back();
        gsOptionList o; o.addInt("Material","",matCode()); o.addInt("Implementation","",implCode()); o.addSwitch("Compressibility","",comp);
        if (d==2) return getMaterialMatrix<2,real_t>(mp,t,p,r,o);
        return getMaterialMatrix<3,real_t>(mp,t,p,r,o);
    }
    void put(Rec & r) const
    {
        std::vector<double> a,b,c; for (size_t k=0;k!=par.size();k++){a.push_back(par[k].c);b.push_back(par[k].gx);c.push_back(par[k].gy);}
        r.s("law",law).s("impl",impl).b("comp",comp).i("d",d).v("p0",a).v("pgx",b).v("pgy",c)
         .v("thick",std::vector<double>{thick.c,thick.gx,thick.gy}).v("rho",std::vector<double>{rho.c,rho.gx,rho.gy});
    }
};
// random definition: kind of parameter field const | var
inline MatDef matdef(const Scen & s, Rng & g)
{
    MatDef m; m.law=S(s,"law"); m.impl=S(s,"impl"); m.comp=I(s,"comp")!=0; m.d=I(s,"d");
    const bool var = S(s,"par")=="var";
    auto F=[&](double c, double rel){ Field f; f.c=c; f.gx=var?g.u(-rel,rel):0; f.gy=var?g.u(-rel,rel):0; return f; };
    const double E=g.u(0.5,20), nu=g.u(0.05,0.42);
    m.par.push_back(F(E,0.15)); m.par.push_back(F(nu,0.05));
    if (m.law=="MR") m.par.push_back(F(g.u(0.3,6),0.1));
    if (m.law=="OG") { // two or three terms with positive mu*alpha
        const int n = 1 + g.n(3);
        for (int k=0;k!=n;k++) { double al = k%2==0 ? g.u(1.2,3.5) : -g.u(0.8,2.5); double mu = (al>0?1:-1)*g.u(0.5,4); m.par.push_back(F(mu,0.1)); m.par.push_back(F(al,0.03)); } }
    m.thick=F(g.u(0.02,0.2),0.15); m.rho=F(g.u(0.5,3),0.15);
    return m;
}
// the deformed configuration of a kind of motion; keeps it regular
inline gsMultiPatch<real_t> deform(const gsMultiPatch<real_t> & mp, const std::string & kind, Rng & g)
{
    gsMultiPatch<real_t> def = mp; const index_t d = mp.geoDim();
    auto lin=[&](const Mat & Q, const Mat & t){ for (size_t p=0;p!=def.nPatches();p++) { Mat & c=def.patch(p).coefs(); c = (c*Q.transpose()).rowwise()+t.transpose().row(0); } };
    Mat Q = Mat::Identity(d,d), t(d,1);
    for (index_t i=0;i!=d;i++) t(i,0)=g.u(-1,1);
    const double a=g.u(-3,3), b=g.u(-1.5,1.5);
    Mat R = Mat::Identity(d,d); R(0,0)=R(1,1)=std::cos(a); R(0,1)=-std::sin(a); R(1,0)=std::sin(a);
    if (d==3) { Mat X=Mat::Identity(3,3); X(1,1)=X(2,2)=std::cos(b); X(1,2)=-std::sin(b); X(2,1)=std::sin(b); R=X*R; }
    if (kind=="zero") return def;
    else if (kind=="rigid") lin(R,t);
    else if (kind=="iso")   lin(Mat(g.u(1.05,1.4)*R),t);
    else if (kind=="trace0"){ const double l=g.u(0.6,0.95); Mat D=Mat::Identity(d,d); D(0,0)=std::sqrt(1+l); D(1,1)=std::sqrt(1-l); lin(D,Mat::Zero(d,1)); }
    else if (kind=="homog") { Mat D=Mat::Identity(d,d); D(0,0)=g.u(0.8,1.5); D(1,1)=g.u(0.8,1.5); D(0,1)=g.u(-0.4,0.4); lin(Mat(R*D),t); }
    else
    {
        const double amp0 = kind=="tiny" ? 1e-6 : kind=="small" ? 1e-3 : kind=="mid" ? 0.12 : kind=="large" ? 0.45 : -1;
        if (amp0 < 0) GISMO_ERROR("unknown motion " << kind);
        for (double amp=amp0; ; amp*=0.6)
        {
            Rng h = g; def = mp; perturb(def,h,amp);
            bool ok = true; Mat u(2,81); for (int i=0;i!=9;i++) for (int j=0;j!=9;j++) { u(0,9*i+j)=i/8.0; u(1,9*i+j)=j/8.0; }
            for (size_t p=0;p!=mp.nPatches() && ok;p++) { Mat j0=mp.patch(p).deriv(u), j1=def.patch(p).deriv(u);
                for (index_t k=0;k!=u.cols();k++) { Mat J0=j0.col(k).reshaped(2,d), J1=j1.col(k).reshaped(2,d);
                    double r = std::sqrt((J1*J1.transpose()).determinant()/(J0*J0.transpose()).determinant());
                    Mat G0=J0*J0.transpose(), G1=J1*J1.transpose(); double tr=(G0.inverse()*G1).trace();
                    if (!(r>0.35 && r<2.8 && tr<6)) ok=false; if (d==2 && (J0.determinant()*J1.determinant()<=0)) ok=false; } }
            if (ok) { g = h; break; }
        }
    }
    return def;
}
// r,1 r,2 r,11 r,22 r,12 as five 3-vectors per point
inline std::string surf(const gsGeometry<real_t> & geo, const Mat & u, index_t k)
{
    const index_t d=geo.geoDim(); Mat j=geo.deriv(u.col(k)), h=geo.deriv2(u.col(k));
    std::ostringstream os; os << '[';
    for (int q=0;q!=5;q++) { if (q) os<<','; os<<'['; for (int c=0;c!=3;c++) { if(c) os<<','; double v=0; if (c<d) v = q<2 ? j(2*c+q,0) : h(3*c+(q-2),0); putReal(os,v);} os<<']'; }
    os << ']'; return os.str();
}
} // namespace kl
