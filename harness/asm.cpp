// Shell systems: drives the assembler and records the systems it delivers, probed with virtual fields.
#include "shell.h"
using namespace kl;
typedef gsSparseMatrix<real_t> Sp;

struct Run
{
    const Scen & s; std::vector<std::string> & out; std::string id; Rng g; Problem P; memory::unique_ptr<Shell> A; gsOptionList opt;
    std::vector<Mat> v; Mat solv;
    Run(const Scen & s_, std::vector<std::string> & o) : s(s_), out(o), id(S(s_,"id")), g(I(s_,"seed")), P(problem(s_,g)) {}
    void cfg(const char * t, const std::string & n, const gsMultiPatch<real_t> & f)
    { out.push_back(Rec().s("t",t).s("id",id).s("n",n).raw("p",P.at(f)).str()); }
    Rec rec(const std::string & kind, const std::string & c, ThinShellAssemblerStatus st)
    { Rec r; r.s("t","asm").s("id",id).i("n",v[0].rows()).s("kind",kind).s("cfg",c).s("status",st==ThinShellAssemblerStatus::Success?"ok":st==ThinShellAssemblerStatus::AssemblyError?"error":"dimension"); return r; }
    void vec(Rec & r) { std::vector<double> x; const Mat & b=A->rhs(); bool ok=b.rows()==v[0].rows(); r.i("rows",b.rows());
        for (size_t k=0;k!=v.size();k++) x.push_back(ok ? (v[k].transpose()*b)(0,0) : std::nan("")); r.v("vr",x); }
    void mat(Rec & r, const Sp & K) { std::vector<double> x; bool ok=K.rows()==v[0].rows() && K.cols()==v[0].rows(); r.i("mrows",K.rows());
        // v1'K v2, v2'K v1, v1'K v1, v3'K v2
        const int a[4]={0,1,0,2}, b[4]={1,0,0,1};
        for (int k=0;k!=4;k++) x.push_back(ok ? (v[a[k]].transpose()*(K*v[b[k]]))(0,0) : std::nan("")); r.v("vkw",x); }
    void start()
    {
        A.reset(P.make(S(s,"mats")=="one" && I(s,"seed")%2));
        if (I(s,"cont")>=0) { opt=A->options(); opt.setInt("Continuity",I(s,"cont")); A->setOptions(opt); }
        if (I(s,"qu")) { opt=A->options(); opt.setInt("ExprAssembler.quB",1+I(s,"qu")); A->setOptions(opt); }
        P.apply(*A); P.quadrature(1,1+I(s,"qu"));
        { Rec r; r.s("t","prob").s("id",id).s("motion",S(s,"motion")).s("bc",S(s,"bc")).i("cont",I(s,"cont")); P.put(r); r.i("np",P.mp.nPatches()).raw("pts",P.ptsJs()); out.push_back(r.str()); }
        cfg("cfg","ori",P.mp);
        const gsDofMapper m=A->getMapper();
        for (int k=0;k!=3;k++) { v.push_back(rvec(g,m.freeSize())); cfg("fld","v"+util::to_string(k+1),field(P,m,v.back())); }
        Mat z=Mat::Zero(m.freeSize(),1);
        cfg("fld","dir",A->constructDisplacement(z));
    }
};

static void forces(const Scen & s, std::vector<std::string> & out)
{
    Run R(s,out); R.start(); Shell & A=*R.A; Problem & P=R.P; Rng & g=R.g;
    const std::string mode=S(s,"mode");
    // configurations: a motion of the geometry, and one reached by a solution vector
    gsMultiPatch<real_t> def=deform(P.mp,S(s,"motion"),g);
    R.cfg("cfg","def",def);
    Mat u=0.05*rvec(g,A.getMapper().freeSize());
    gsMultiPatch<real_t> du=A.constructSolution(u);
    R.cfg("cfg","sol",du);
    ThinShellAssemblerStatus st;
    const bool K = mode=="tangent", F = mode=="force";
    // linear system
    if (F || K || mode=="load") { st=A.assemble(); Rec r=R.rec("lin","ori",st); R.vec(r); R.mat(r,A.matrix()); out.push_back(r.str()); }
    if (F || mode=="load")
    {
        st=A.assembleVector(def);       { Rec r=R.rec("vec","def",st); R.vec(r); out.push_back(r.str()); }
        st=A.assembleVector(u);         { Rec r=R.rec("vec","sol",st); R.vec(r); out.push_back(r.str()); }
        st=A.assembleVector(def,false); { Rec r=R.rec("vec","def",st); R.vec(r); out.push_back(r.str()); }
        st=A.assembleVector(u,false);   { Rec r=R.rec("vec","sol",st); R.vec(r); out.push_back(r.str()); }
        st=A.assemble(u,false,true);    { Rec r=R.rec("vec","sol",st); R.vec(r); out.push_back(r.str()); }
    }
    if (K)
    {
        st=A.assembleMatrix(def);       { Rec r=R.rec("mat","def",st); R.mat(r,A.matrix()); out.push_back(r.str()); }
        st=A.assembleMatrix(u);         { Rec r=R.rec("mat","sol",st); R.mat(r,A.matrix()); out.push_back(r.str()); }
        st=A.assemble(def);             { Rec r=R.rec("both","def",st); R.vec(r); R.mat(r,A.matrix()); out.push_back(r.str()); }
        st=A.assemble(def,true,false);  { Rec r=R.rec("both","def",st); R.vec(r); R.mat(r,A.matrix()); out.push_back(r.str()); }
        st=A.assemble(u,true,false);    { Rec r=R.rec("both","sol",st); R.vec(r); R.mat(r,A.matrix()); out.push_back(r.str()); }
        st=A.assemble(u);               { Rec r=R.rec("both","sol",st); R.vec(r); R.mat(r,A.matrix()); out.push_back(r.str()); }
        st=A.assembleMatrix(P.mp);      { Rec r=R.rec("mat","ori",st); R.mat(r,A.matrix()); out.push_back(r.str()); }
        if (P.bend) { st=A.assembleMatrix(u,u); { Rec r=R.rec("mat","sol",st); R.mat(r,A.matrix()); out.push_back(r.str()); } }
        // tangent with the forces of an earlier iterate, carried along the update
        if (P.bend)
        {
            Mat up=u+0.03*rvec(g,u.rows()); Mat up2=u-up; R.cfg("cfg","prev",A.constructSolution(up)); R.cfg("fld","du",field(P,A.getMapper(),up2));
            st=A.assembleMatrix(u,up);    { Rec r=R.rec("mix","sol",st); R.mat(r,A.matrix()); out.push_back(r.str()); }
        }
        // residual along v2 from def: R(def +- h v2), R(def +- 2h v2)
        const gsDofMapper m=A.getMapper(); gsMultiPatch<real_t> w=field(P,m,R.v[1]);
        const double h=2e-4; std::vector<double> x; Mat vv=R.v[0];
        const double c[4]={-2,-1,1,2}; bool ok=true;
        for (int k=0;k!=4;k++) { st=A.assembleVector(plus(def,w,c[k]*h)); ok=ok && st==ThinShellAssemblerStatus::Success; x.push_back((vv.transpose()*A.rhs())(0,0)); }
        Rec r=R.rec("der","def",ok?ThinShellAssemblerStatus::Success:ThinShellAssemblerStatus::AssemblyError); r.r("h",h).v("R",x); out.push_back(r.str());
    }
    // loads assembled on their own, on top of a system: the change they make
    if (mode=="load" || K)
    {
        const index_t D=P.d; const double val=g.u(-1,1); Affine pf=affine(g,1,D,0.4,true), ff=affine(g,3,D,0.4,true);
        FunPtr PF=pf.fun(), FF=ff.fun(); Affine pc; pc.dom=D; pc.c=Mat::Zero(1,4); pc.c(0,0)=val;
        const gsFunction<real_t> & pfun=P.fn(PF); const gsFunction<real_t> & ffun=P.fn(FF);
        if (mode=="load")
        {
            #define ADDV(kind,c,load,call) { Mat b0=A.rhs(); st=A.call; Rec r=R.rec(kind,c,st); r.raw("load",load.js()); std::vector<double> x,b; bool ok=A.rhs().rows()==b0.rows() && b0.rows()==R.v[0].rows(); \
                for (size_t k=0;k!=R.v.size();k++) { x.push_back(ok?(R.v[k].transpose()*(A.rhs()-b0))(0,0):std::nan("")); b.push_back((R.v[k].cwiseAbs().transpose()*b0.cwiseAbs())(0,0)); } r.v("vr",x).v("base",b); out.push_back(r.str()); }
            A.assembleVector(u);
            ADDV("pvec","def",pf,assemblePressureVector(pfun,def)); ADDV("pvec","def",pc,assemblePressureVector(val,def));
            ADDV("pvec","ori",pf,assemblePressureVector(pfun)); ADDV("pvec","ori",pc,assemblePressureVector(val));
            #define CONC(f) (P.d==2 ? dynamic_cast<gsThinShellAssembler<2,real_t,false>&>(A).f : P.bend ? dynamic_cast<gsThinShellAssembler<3,real_t,true>&>(A).f \
                                        : dynamic_cast<gsThinShellAssembler<3,real_t,false>&>(A).f)
            if (P.pressOn) ADDV("pvec","def",P.press,status(); st=CONC(assemblePressureVector(def)));
            ADDV("fvec","def",ff,status(); st=CONC(assembleFoundationVector(ffun,def)));
            if (P.foundOn) ADDV("fvec","sol",P.found,status(); st=CONC(assembleFoundationVector(du)));
        }
        else
        {
            #define ADDM(kind,c,load,call) { Sp b0=A.matrix(); st=A.call; Rec r=R.rec(kind,c,st); r.raw("load",load.js()); Sp dK=A.matrix()-b0; R.mat(r,dK); \
                std::vector<double> b; Sp ab=b0.cwiseAbs(); const int a_[4]={0,1,0,2}, b_[4]={1,0,0,1}; for (int k=0;k!=4;k++) b.push_back((R.v[a_[k]].cwiseAbs().transpose()*(ab*R.v[b_[k]].cwiseAbs()))(0,0)); r.v("base",b); out.push_back(r.str()); }
            A.assembleMatrix(u);
            ADDM("pmat","def",pf,assemblePressureMatrix(pfun,def)); ADDM("pmat","def",pc,assemblePressureMatrix(val,def));
            ADDM("pmat0","ori",pf,assemblePressureMatrix(pfun)); ADDM("pmat0","ori",pc,assemblePressureMatrix(val));
            if (P.foundOn && P.d==3) { st=A.assembleFoundation(); Rec r=R.rec("fmat","ori",st); r.raw("load",P.found.js()); R.mat(r,A.matrix()); r.v("base",std::vector<double>(4,0.0)); out.push_back(r.str()); }
        }
    }
    if (mode=="mass")
    {
        st=A.assembleMass();     { Rec r=R.rec("mass","ori",st); R.mat(r,A.massMatrix()); out.push_back(r.str()); }
        std::vector<double> row1; { const Sp M=A.massMatrix(); Mat one=Mat::Ones(M.cols(),1); Mat y=M*one; for (size_t k=0;k!=R.v.size();k++) row1.push_back((R.v[k].transpose()*y)(0,0)); row1.push_back(y.cwiseAbs().sum()); }
        st=A.assembleMass(true); { Rec r=R.rec("lump","ori",st); const Sp & M=A.massMatrix(); double off=0,dia=0; std::vector<double> x;
            for (index_t k=0;k!=M.outerSize();k++) for (Sp::InnerIterator it(M,k);it;++it) { if (it.row()!=it.col()) off=std::max(off,std::abs(it.value())); else dia=std::max(dia,std::abs(it.value())); }
            Mat one=Mat::Ones(M.cols(),1); for (size_t k=0;k!=R.v.size();k++) x.push_back(M.rows()==R.v[k].rows()?(R.v[k].transpose()*(M*one))(0,0):std::nan(""));
            r.i("mrows",M.rows()).r("off",off).r("dia",dia).v("v1",x).v("row1",row1); out.push_back(r.str()); }
        st=A.assembleMass();     { Rec r=R.rec("mass","ori",st); R.mat(r,A.massMatrix()); out.push_back(r.str()); }
    }
}
int main(int c, char ** v) { return runAll(c,v,forces,200); }
