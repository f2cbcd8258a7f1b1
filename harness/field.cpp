// Stress, strain and force fields: asks an assembler for fields of several states, keeps them, and evaluates them later in any order.
#include "shell.h"
using namespace kl;
typedef gsPiecewiseFunction<real_t> PF;
static std::map<std::string,stress_type::type> types()
{
    std::map<std::string,stress_type::type> t;
    #define T(x) t["f_" #x]=stress_type::x;
    T(displacement) T(von_mises) T(von_mises_membrane) T(von_mises_flexural) T(membrane) T(membrane_force) T(membrane_PK2) T(membrane_force_PK2)
    T(flexural) T(flexural_PK2) T(flexural_moment) T(flexural_moment_PK2) T(membrane_strain) T(flexural_strain) T(principal_membrane_strain)
    T(principal_flexural_strain) T(principal_stretch) T(principal_stress) T(principal_stress_membrane) T(principal_stress_flexural)
    T(principal_stretch_dir1) T(principal_stretch_dir2) T(principal_stretch_dir3) T(principal_stress_dir1) T(principal_stress_dir2) T(principal_stress_dir3) T(tension_field)
    #undef T
    return t;
}
static void query(std::vector<std::string> & out, const std::string & id, const std::string & q, std::function<Mat()> f)
{
    Rec r; r.s("t","q").s("id",id).s("q",q);
    try { Mat v = f(); r.s("how","ok").i("rows",v.rows()).i("cols",v.cols()).cols("val",v); }
    catch (const std::exception & e) { r.s("how","throw").i("rows",0).i("cols",0).raw("val","[]").s("what",std::string(e.what()).substr(0,160)); }
    out.push_back(r.str());
}
static void points(std::vector<std::string> & out, const std::string & id, const gsMultiPatch<real_t> & mp, const gsMultiPatch<real_t> & def, index_t patch, const Mat & u, double z)
{
    std::ostringstream os; os << '[';
    for (index_t k=0;k!=u.cols();k++)
    {
        Mat x = mp.patch(patch).eval(u.col(k)), y = def.patch(patch).eval(u.col(k));
        if (k) os << ',';
        Mat zz(1,1); zz<<z; Rec r; r.v("x", x).v("y",y).raw("ori",surf(mp.patch(patch),u,k)).raw("def",surf(def.patch(patch),u,k)).v("z",zz);
        os << r.str();
    }
    os << ']';
    out.push_back(Rec().s("t","pts").s("id",id).i("n",u.cols()).i("m",1).i("patch",patch).raw("p",os.str()).str());
}
template<MaterialOutput o>
static Mat ref(const MatDef & md0, const gsMultiPatch<real_t> & mp, const gsMultiPatch<real_t> & def, index_t patch, const Mat & u)
{
    MatDef md=md0; MM::uPtr m = md.make(mp); Mat z=Mat::Zero(1,1);
    gsMaterialMatrixEval<real_t,o> e(m.get(),&mp,&def,z); Mat r; e.piece(patch).eval_into(u,r); return r;
}
static void run(const Scen & s, std::vector<std::string> & out)
{
    const std::string id=S(s,"id"), way=S(s,"way"); Rng g(I(s,"seed"));
    Problem P=problem(s,g); const index_t np=P.mp.nPatches();
    gsMultiPatch<real_t> ori=P.mp;                              // the undeformed geometry of the question
    if (way=="other") { Rng h(91+np); perturb(ori,h,0.15); }    // ... not the assembler's own
    gsMultiPatch<real_t> def[2] = { deform(ori,S(s,"motion"),g), deform(ori,S(s,"motion2"),g) };
    std::unique_ptr<Shell> a(P.make(!P.many)); P.apply(*a);
    gsThinShellAssembler<3,real_t,true> * ab=dynamic_cast<gsThinShellAssembler<3,real_t,true>*>(a.get());
    gsThinShellAssembler<3,real_t,false> * am=dynamic_cast<gsThinShellAssembler<3,real_t,false>*>(a.get());
    Mat b0, K0; if (way!="direct") { a->assembleVector(def[0]); b0=a->rhs(); }
    std::map<std::string,stress_type::type> T=types();
    // first all fields are asked for, then evaluated in the order of the scenario
    struct Ask { std::string q; index_t st, patch; Mat u; double z; memory::shared_ptr<PF> f; memory::shared_ptr<gsShellStressFunction<real_t> > g; };
    std::vector<Ask> asks;
    for (int k=1; has(s,"q"+util::to_string(k)); k++)
    {
        Ask x; x.q=S(s,"q"+util::to_string(k)); x.st=g.n(2); x.patch=g.n(np); x.z=0;
        const index_t n=1+g.n(3); x.u.resize(2,n); for (index_t j=0;j!=n;j++) { x.u(0,j)=g.u(0.03,0.97); x.u(1,j)=g.u(0.03,0.97); }
        if (x.q[0]=='p') { x.patch=0; x.z=g.u(-0.5,0.5); if (way=="other") x.q="f_membrane"; }
        if (x.q[0]=='f')
        {
            if (way=="direct") x.g.reset(new gsShellStressFunction<real_t>(ori,def[x.st],P.cont,x.patch,T.at(x.q)));
            else { x.f.reset(new PF); if (way=="other") { if (ab) ab->constructStress(ori,def[x.st],*x.f,T.at(x.q)); else am->constructStress(ori,def[x.st],*x.f,T.at(x.q)); } else a->constructStress(def[x.st],*x.f,T.at(x.q)); }
        }
        asks.push_back(x);
    }
    for (size_t k=0;k!=asks.size();k++)
    {
        Ask & x=asks[k]; const MatDef & md=P.md[P.many?x.patch:0];
        { Rec r; r.s("t","mat").s("id",id).s("mode","field").s("shape",S(s,"shape")).s("motion",S(s,x.st?"motion2":"motion")).i("ng",0); md.put(r); out.push_back(r.str()); }
        points(out,id,ori,def[x.st],x.patch,x.u,x.z);
        if (x.q=="f_flexural"||x.q=="f_principal_stress_flexural") query(out,id,"ref",[&]{ return ref<MaterialOutput::CauchyStressM>(md,ori,def[x.st],x.patch,x.u); });
        if (x.q=="f_flexural_PK2"||x.q.substr(0,11)=="f_von_mises") query(out,id,"ref",[&]{ return ref<MaterialOutput::StressM>(md,ori,def[x.st],x.patch,x.u); });
        if (x.q=="pstretch") query(out,id,x.q,[&]{ return a->computePrincipalStretches(x.u,def[x.st],x.z); });
        else if (x.q=="pstress") query(out,id,x.q,[&]{ return a->computePrincipalStresses(x.u,def[x.st],x.z); });
        else query(out,id,x.q,[&]{ Mat r; if (x.g) { x.g->eval_into(x.u,r); if (r.rows()!=x.g->targetDim()) GISMO_ERROR("target dimension"); }
                                   else { x.f->piece(x.patch).eval_into(x.u,r); if (r.rows()!=x.f->piece(x.patch).targetDim()) GISMO_ERROR("target dimension"); } return r; });
    }
    // the questions leave the assembler as it was
    if (way!="direct") query(out,id,"drift",[&]{ a->assembleVector(def[0]); Mat r(1,1); r<<maxAbs(Mat(a->rhs()-b0))/(1e-12+maxAbs(b0)); return r; });
}
int main(int c, char ** v) { return runAll(c,v,run); }
