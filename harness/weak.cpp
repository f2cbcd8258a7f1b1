// Weak supports and couplings: records what they add to the systems an assembler delivers.
#include "edges.h"
using namespace kl;
typedef gsSparseMatrix<real_t> Sp;
static void weak(const Scen & s, std::vector<std::string> & out)
{
    Rng g(I(s,"seed")); const std::string id=S(s,"id"); Scen t=s; t["loads"]="0"; t["pm"]="0"; t["body"]="cphys"; t["mats"]=I(s,"many")?"cont":"one"; t["bc"]="none";
    Problem P=problem(t,g); const index_t d=P.d, np=P.mp.nPatches();
    flipLast(P,I(s,"flip"));
    // strong supports and weak conditions on free sides
    std::vector<patchSide> free; for (gsBoxTopology::const_biterator b=P.mp.bBegin(); b!=P.mp.bEnd(); ++b) free.push_back(*b);
    for (size_t k=free.size();k>1;k--) std::swap(free[k-1],free[g.n(k)]);
    size_t at=0;
    auto C=[&](const char * ty, Affine f){ if (at>=free.size()) return; SideCond c; c.type=ty; c.patch=free[at].patch; c.side=free[at].side().index(); c.comp=-1; c.par=false; c.f=f; P.sides.push_back(c); at++; };
    Affine zero; const std::string bc=S(s,"bc");
    if (bc=="fix") C("D",zero); else if (bc=="nonhom") C("D",affine(g,d,d,0.05,true));
    P.makeBC(); const gsBoundaryConditions<real_t> bc0=P.bc; const size_t at0=at;
    for (long k=0;k<I(s,"wd") && at<free.size();k++) C("WD",affine(g,d,d,0.1,g.n(2)));
    for (long k=0;k<I(s,"wc") && at<free.size();k++) C("WC",zero);
    if (d==3 && I(s,"wd") && I(s,"wc")) { SideCond c=P.sides[at0 ? 1 : 0]; c.type="WC"; c.f=zero; P.sides.push_back(c); }   // both on one side
    P.makeBC(); const gsBoundaryConditions<real_t> bc1=P.bc;
    const double pen[3]={std::pow(10.,g.u(-1,3)),std::pow(10.,g.u(-1,3)),std::pow(10.,g.u(-1,3))};
    // interfaces and their assignment
    gsBoxTopology::ifContainer ifc=P.mp.interfaces(); std::vector<std::string> as; gsBoxTopology::ifContainer c0,c1,s0,s1,un;
    for (size_t k=0;k!=ifc.size();k++)
    {
        const std::string a=k==0?S(s,"as1"):S(s,"as2"); as.push_back(a);
        if (a=="weak0"||a=="both") c0.push_back(ifc[k]); if (a=="weak1"||a=="both") c1.push_back(ifc[k]);
        if (a=="strong0") s0.push_back(ifc[k]); if (a=="strong1") s1.push_back(ifc[k]); if (a=="unc") un.push_back(ifc[k]);
    }
    const index_t quB=1+I(s,"qu");
    auto make=[&](bool w){ P.bc = w?bc1:bc0; Shell * A=P.make(!I(s,"many") && I(s,"seed")%2); gsOptionList o=A->options();
        o.setInt("Continuity",I(s,"cont")); o.setInt("ExprAssembler.quB",quB); o.setReal("WeakDirichlet",pen[0]); o.setReal("WeakClamped",pen[1]); o.setReal("IfcPenalty",pen[2]); o.setInt("IfcDefault",I(s,"ifcdef")); A->setOptions(o);
        if (w) { A->addWeakC0(c0); A->addWeakC1(c1); A->addStrongC0(s0); A->addStrongC1(s1); A->addUncoupled(un); for (long k=0;k<I(s,"init");k++) A->initInterfaces(); }
        return A; };
    memory::unique_ptr<Shell> A0(make(false)), A1(make(true)); const index_t n=A0->numDofs();
    // points
    std::vector<WPt> pts;
    for (size_t k=0;k!=P.sides.size();k++) if (P.sides[k].type[0]=='W')
    { std::vector<Vec> u; std::vector<double> w,tt; std::vector<index_t> el; edge(P.basis.basis(P.sides[k].patch),P.sides[k].side,quB,u,w,el,tt);
      for (size_t q=0;q!=u.size();q++) { WPt x; x.k='b'; x.patch=P.sides[k].patch; x.side=P.sides[k].side; x.cond=k+1; x.el=el[q]; x.w=w[q]; x.u=u[q]; pts.push_back(x); } }
    pairs(P,ifc,quB,pts);
    { std::ostringstream ia; ia<<'['; for (size_t k=0;k!=as.size();k++) { if (k) ia<<','; ia<<'"'<<as[k]<<'"'; } ia<<']';
      Rec r; r.s("t","prob").s("id",id); P.put(r); r.raw("ifc",ia.str()).b("init",I(s,"init")>0).i("ifcdef",I(s,"ifcdef")).v("pen",std::vector<double>(pen,pen+3)).raw("pts",ptsJs(pts)); out.push_back(r.str()); }
    if (pts.empty()) return;
    auto cfg=[&](const char * ty, const std::string & nm, const gsMultiPatch<real_t> & f){ out.push_back(Rec().s("t",ty).s("id",id).s("n",nm).raw("p",atPts(pts,f)).str()); };
    cfg("cfg","ori",P.mp);
    const gsDofMapper m=A0->getMapper(); std::vector<Mat> v;
    for (int k=0;k!=3;k++) { v.push_back(rvec(g,m.freeSize())); cfg("fld","v"+util::to_string(k+1),field(P,m,v.back())); }
    Mat z=Mat::Zero(m.freeSize(),1); cfg("fld","dir",A0->constructDisplacement(z));
    gsMultiPatch<real_t> def=plus(deform(P.mp,S(s,"motion"),g),field(P,m,rvec(g,m.freeSize())),0.02); cfg("cfg","def",def);
    Mat u=0.02*rvec(g,m.freeSize()); cfg("cfg","sol",A0->constructSolution(u));
    auto rec=[&](const std::string & kind, const std::string & c, int how)
    {
        Rec r; r.s("t","asm").s("id",id).s("kind",kind).s("cfg",c); bool ok=true; std::vector<double> x(3,0),y(4,0); double vb=0,kb=0;
        for (int w=0;w!=2;w++)
        {
            Shell & A= w?*A1:*A0; ThinShellAssemblerStatus st; const double sg=w?1:-1;
            switch (how) { case 0: st=A.assemble(); break; case 1: st=A.assembleVector(def); break; case 2: st=A.assembleMatrix(def); break; case 3: st=A.assembleVector(u); break; case 4: st=A.assembleMatrix(u); break; default: st=A.assemble(u); }
            ok=ok && st==ThinShellAssemblerStatus::Success; if (!ok) break;
            if (kind!="mat") { const Mat b=A.rhs(); ok=ok && b.rows()==n; if (!ok) break; for (int k=0;k!=3;k++) x[k]+=sg*(v[k].transpose()*b)(0,0); vb=std::max(vb,b.cwiseAbs().sum()); }
            if (kind!="vec") { const Sp K=A.matrix(); ok=ok && K.rows()==n && K.cols()==n; if (!ok) break; const int a[4]={0,1,0,2}, c[4]={1,0,0,1}; for (int k=0;k!=4;k++) y[k]+=sg*(v[a[k]].transpose()*(K*v[c[k]]))(0,0); double q=0; for (index_t j=0;j!=K.outerSize();j++) for (Sp::InnerIterator it(K,j);it;++it) q+=std::abs(it.value()); if (w==0) kb=q; }
            if (w==0 && kind!="mat") vb=A.rhs().cwiseAbs().sum();
        }
        r.s("status",ok?"ok":"error").v("vr",x).v("vkw",y).r("vbase",vb).r("kbase",kb); out.push_back(r.str());
    };
    rec("lin","ori",0); rec("vec","def",1); rec("mat","def",2); rec("vec","sol",3); rec("mat","sol",4); rec("mat","sol",5);
}
int main(int c, char ** v) { return runAll(c,v,weak,200); }
