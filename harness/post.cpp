// Post-processing: records the measures an assembler reports of configurations, in any order and between assemblies.
#include "edges.h"
using namespace kl;
typedef gsSparseMatrix<real_t> Sp;
static void post(const Scen & s, std::vector<std::string> & out)
{
    Rng g(I(s,"seed")); const std::string id=S(s,"id"); Scen t=s; t["loads"]="0"; t["pm"]="0"; t["body"]="cphys"; t["mats"]=I(s,"many")?"cont":"one"; t["bc"]="none";
    Problem P=problem(t,g); const index_t d=P.d, np=P.mp.nPatches();
    flipLast(P,I(s,"flip"));
    std::vector<patchSide> free; for (gsBoxTopology::const_biterator b=P.mp.bBegin(); b!=P.mp.bEnd(); ++b) free.push_back(*b);
    auto any=[&](){ return free[g.n(free.size())]; };
    Affine zero; const std::string bc=S(s,"bc");
    if (bc!="none") { SideCond c; const patchSide q=any(); c.type="D"; c.patch=q.patch; c.side=q.side().index(); c.comp=bc=="comp"?(index_t)g.n(d):-1; c.par=false; if (bc=="nonhom") c.f=affine(g,d,d,0.05,true); P.sides.push_back(c); }
    P.makeBC();
    const index_t quB=1+I(s,"qu");
    memory::unique_ptr<Shell> A(P.make(!I(s,"many") && I(s,"seed")%2));
    { gsOptionList o=A->options(); o.setInt("Continuity",I(s,"cont")); o.setInt("ExprAssembler.quB",quB); A->setOptions(o); }
    gsBoxTopology::ifContainer ifc=P.mp.interfaces();
    // points: d with the rule of the options, a with the rule of the evaluator, l and r at interfaces
    std::vector<WPt> pts;
    for (int k=0;k!=2;k++)
    { P.quadrature(1,k?1:quB); for (size_t q=0;q!=P.pts.size();q++) if (P.pts[q].k=='d') { WPt x; x.k=k?'a':'d'; x.patch=P.pts[q].patch; x.side=0; x.cond=0; x.el=P.pts[q].el; x.w=P.pts[q].w; x.u=P.pts[q].u; pts.push_back(x); } }
    pairs(P,ifc,1,pts);
    { Rec r; r.s("t","prob").s("id",id); P.put(r); r.raw("pts",ptsJs(pts)); out.push_back(r.str()); }
    auto cfg=[&](const char * ty, const std::string & nm, const gsMultiPatch<real_t> & f){ out.push_back(Rec().s("t",ty).s("id",id).s("n",nm).raw("p",atPts(pts,f)).str()); };
    cfg("cfg","ori",P.mp);
    const gsDofMapper m=A->getMapper(); std::vector<Mat> v;
    for (int k=0;k!=2;k++) { v.push_back(rvec(g,m.freeSize())); cfg("fld","v"+util::to_string(k+1),field(P,m,v.back())); }
    std::vector<gsMultiPatch<real_t> > C(3); C[0]=P.mp;
    for (int k=1;k!=3;k++)
    {
        C[k]=k==1?deform(P.mp,S(s,"motion"),g):deform(P.mp,"mid",g);
        if (I(s,"torn")) for (index_t p=0;p!=np;p++) { Mat & c=C[k].patch(p).coefs(); for (index_t i=0;i!=c.rows();i++) for (index_t j=0;j!=d;j++) c(i,j)+=0.02*g.u(-1,1); }
        cfg("cfg",k==1?"c1":"c2",C[k]);
    }
    const char * nm[3]={"ori","c1","c2"};
    auto minus=[&](const gsMultiPatch<real_t> & f){ return plus(f,P.mp,-1); };
    // what must not change when something is asked
    bool done=false; const Mat u0=0.1*rvec(g,m.freeSize()); Sp K0; Mat b0; Mat c0;
    auto shape=[&](){ gsMultiPatch<real_t> f=A->constructDisplacement(u0); Mat r(0,d); for (index_t p=0;p!=np;p++) { Mat q(r.rows()+f.patch(p).coefs().rows(),d); if (r.rows()) q.topRows(r.rows())=r; q.bottomRows(f.patch(p).coefs().rows())=f.patch(p).coefs(); r=q; } return r; };
    auto hold=[&](){ c0=shape(); if (done) { K0=A->matrix(); b0=A->rhs(); } };
    auto drift=[&]()
    {
        const Mat c1=shape(); if (c1.rows()!=c0.rows()) return 1e9; double r=maxAbs(Mat(c1-c0));
        if (done) { const Sp K=A->matrix(); const Mat b=A->rhs(); if (K.rows()!=K0.rows() || b.rows()!=b0.rows()) return 1e9;
            const double sk=K0.nonZeros()?maxAbs(K0.toDense()):0, sb=maxAbs(b0);
            r=std::max(r,maxAbs(Mat(K.toDense()-K0.toDense()))/(1e-30+sk)); r=std::max(r,maxAbs(Mat(b-b0))/(1e-30+sb)); }
        return r;
    };
    int nf=0;
    for (int k=1;k<=7;k++)
    {
        const std::string op=S(s,("o"+util::to_string(k)).c_str()); const index_t c=1+g.n(2), e=g.n(3);
        // the configuration may be an object that is gone afterwards
        memory::unique_ptr<gsMultiPatch<real_t> > X(new gsMultiPatch<real_t>(C[c]));
        hold(); std::vector<double> r; std::string f="none"; Mat aff=Mat::Zero(d,4); std::vector<long> on; bool ok=true;
        if (op=="lin") { ok=A->assemble()==ThinShellAssemblerStatus::Success; done=ok; continue; }
        else if (op=="both") { ok=A->assemble(C[c])==ThinShellAssemblerStatus::Success; done=ok; continue; }
        else if (op=="mass") { if (done) continue; A->assembleMass(); continue; }
        else if (op=="area") r.push_back(A->getArea(*X));
        else if (op=="area0") r.push_back(A->getArea(C[0]));
        else if (op=="dnorm") r.push_back(A->getDisplacementNorm(*X));
        else if (op=="energy") r.push_back(A->getElasticEnergy(*X));
        else if (op=="defnorm") r.push_back(A->deformationNorm(*X,C[e]));
        else if (op=="force")
        {
            const int n=1+g.n(2); std::vector<patchSide> ps; for (int q=0;q<n;q++) ps.push_back(g.n(3)?any():patchSide(g.n(np),boxSide(1+g.n(4))));
            Mat F = n==1 && g.n(2) ? Mat(A->boundaryForce(*X,ps[0])) : Mat(A->boundaryForce(*X,ps));
            for (index_t i=0;i!=F.size();i++) r.push_back(F.at(i));
            // one on the control points of the sides, and on those of the neighbours they coincide with when the patches are connected
            std::vector<Mat> z; std::vector<Mat> at; for (index_t p=0;p!=np;p++) z.push_back(Mat::Zero(P.basis.basis(p).size(),1));
            for (size_t q=0;q!=ps.size();q++) { gsMatrix<index_t> b=P.basis.basis(ps[q].patch).boundary(ps[q].side()); for (index_t i=0;i!=b.rows();i++) z[ps[q].patch](b(i,0),0)=1; }
            if (I(s,"cont")>=0)
            {
                std::vector<Mat> y=z;
                for (index_t p=0;p!=np;p++) for (index_t i=0;i!=z[p].rows();i++) if (z[p](i,0)) for (index_t q=0;q!=np;q++) if (q!=p) for (index_t j=0;j!=z[q].rows();j++)
                    if ((P.mp.patch(p).coefs().row(i)-P.mp.patch(q).coefs().row(j)).norm()<1e-9) y[q](j,0)=1;
                z=y;
            }
            f="i"+util::to_string(++nf);
            for (index_t i=0;i!=d;i++) { gsMultiPatch<real_t> w; for (index_t p=0;p!=np;p++) { Mat cc=Mat::Zero(z[p].rows(),d); cc.col(i)=z[p]; w.addPatch(P.basis.basis(p).makeGeometry(give(cc))); } cfg("fld",f+util::to_string(i+1),w); }
        }
        else if (op=="ifc0"||op=="ifg1"||op=="ifn"||op=="ifk"||op=="ifh")
        {
            if (d==2 && op!="ifc0") continue;
            gsBoxTopology::ifContainer sub; for (size_t q=0;q!=ifc.size();q++) if (g.n(3)) { sub.push_back(ifc[q]); on.push_back(q+1); }
            const bool all=g.n(2)==0; if (all) { on.clear(); for (size_t q=0;q!=ifc.size();q++) on.push_back(q+1); }
            #define ASK(F) r.push_back(all?A->F(*X):A->F(*X,sub))
            if (op=="ifc0") ASK(interfaceErrorC0); else if (op=="ifg1") ASK(interfaceErrorG1); else if (op=="ifn") ASK(interfaceErrorNormal); else if (op=="ifk") ASK(interfaceErrorGaussCurvature); else ASK(interfaceErrorMeanCurvature);
            #undef ASK
        }
        else if (op=="proj"||op=="projm")
        {
            Affine a=affine(g,d,d,1,true); aff=a.c; std::vector<std::string> ex;
            for (index_t i=0;i!=d;i++) { std::string q=fmt(a.c(i,0))+"+"+fmt(a.c(i,1))+"*x+"+fmt(a.c(i,2))+"*y"; if (d==3) q+="+"+fmt(a.c(i,3))+"*z"; ex.push_back("("+q+")^2"); }
            gsFunctionExpr<real_t> fun(ex,d); gsMultiPatch<real_t> w;
            if (op=="projm") A->projectL2_into(fun,w);
            else { const Mat u=A->projectL2(fun); if (u.rows()!=m.freeSize()) ok=false; else w=A->constructSolution(u); }
            if (ok) { f="p"+util::to_string(++nf); cfg("fld",f,minus(w)); }
        }
        X.reset(); const double dr=drift();
        std::ostringstream q; q<<'['; for (size_t i=0;i!=on.size();i++) { if (i) q<<','; q<<on[i]; } q<<']'; Affine af; af.c=aff;
        out.push_back(Rec().s("t","ask").s("id",id).s("what",op).s("cfg",op=="area0"?"ori":nm[c]).s("cfg2",nm[e]).s("f",f).raw("aff",af.js()).raw("on",q.str()).b("ok",ok).v("r",r).r("drift",dr).str());
    }
}
int main(int c, char ** v) { return runAll(c,v,post,200); }
