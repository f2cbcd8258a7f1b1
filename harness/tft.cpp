// Tension-field materials: replays the life of a wrapped material and records its answers.
#include "matdef.h"
#include <gsKLShell/src/gsMaterialMatrixTFT.h>
using namespace kl;
typedef gsMaterialMatrixBase<real_t> MM;
// affine motion of a class of stretches, in general position
static gsMultiPatch<real_t> stretched(const gsMultiPatch<real_t> & mp, const std::string & kind, Rng & g)
{
    if (kind=="mid" || kind=="large") return deform(mp,kind,g);
    const index_t d=mp.geoDim(); gsMultiPatch<real_t> def=mp;
    double l1,l2; if (kind=="taut") { l1=g.u(1.02,1.4); l2=g.u(1.02,1.4); } else if (kind=="tiny") { auto e=[&]{ return (g.n(2)?1:-1)*std::pow(10.,g.u(-4.7,-2.5)); }; l1=1+e(); l2=1+e(); } else if (kind=="slack") { l1=g.u(0.75,0.97); l2=g.u(0.75,0.97); }
    else { l1=g.u(1.03,1.4); l2=g.n(2)?g.u(0.72,0.95):(1-0.5*(l1-1))*g.u(0.8,1.0); }
    auto rot=[&](double a){ Mat R=Mat::Identity(d,d); R(0,0)=R(1,1)=std::cos(a); R(0,1)=-std::sin(a); R(1,0)=std::sin(a); return R; };
    Mat D=Mat::Identity(d,d); D(0,0)=l1; D(1,1)=l2; if (d==3) D(2,2)=kind=="tiny"?1+(g.n(2)?1:-1)*std::pow(10.,g.u(-4.7,-2.5)):kind=="slack"?g.u(0.75,0.97):g.u(1,1.2);
    Mat Q=rot(g.u(-3,3)), P=g.n(4)?rot(g.u(-3,3)):Mat(Mat::Identity(d,d)), M=Q*D*P;
    for (size_t p=0;p!=def.nPatches();p++) def.patch(p).coefs() = (mp.patch(p).coefs()*M.transpose()).eval();
    return def;
}
template<class W> static void live(const Scen & s, std::vector<std::string> & out)
{
    const std::string id=S(s,"id"), ctor=S(s,"ctor"); Rng g(I(s,"seed")); const index_t d=I(s,"d");
    MatDef md=matdef(s,g);
    gsMultiPatch<real_t> mp=geometry(S(s,"shape"),d,I(s,"np"),2+g.n(2),1);
    std::vector<gsMultiPatch<real_t> > def; def.push_back(stretched(mp,S(s,"m1"),g)); def.push_back(stretched(mp,S(s,"m2"),g));
    memory::shared_ptr<gsMultiPatch<real_t> > sh[2]; for (int k=0;k!=2;k++) sh[k]=memory::shared_ptr<gsMultiPatch<real_t> >(new gsMultiPatch<real_t>(def[k]));
    MM::uPtr base=md.make(mp);
    if (S(s,"when")=="before") base->setDeformed(&def[0]);
    memory::unique_ptr<W> w;
    if (ctor=="ptr") w.reset(new W(base.get()));
    else if (ctor=="ref") w.reset(new W(*base));
    else { MM::Ptr p(base.release()); w.reset(new W(p)); }
    if (S(s,"when")=="after") w->setDeformed(&def[0]);
    const index_t n=I(s,"n"), nz=I(s,"nz"), patch=g.n(I(s,"np"));
    Mat u(2,n), z(nz,n);
    for (index_t k=0;k!=n;k++) { u(0,k)=g.u(0.03,0.97); u(1,k)=g.u(0.03,0.97); for (index_t j=0;j!=nz;j++) z(j,k)=md.law=="SvK"?0:g.u(-0.5,0.5); } // the linear law answers with its membrane part
    { Rec r; r.s("t","tft").s("id",id).b("lin",I(s,"lin")!=0); md.put(r); out.push_back(r.str()); }
    { std::ostringstream os; os<<'['; for (index_t k=0;k!=n;k++) { if (k) os<<','; Rec r; r.v("x",Mat(mp.patch(patch).eval(u.col(k)))).raw("ori",surf(mp.patch(patch),u,k))
          .raw("defs","["+surf(def[0].patch(patch),u,k)+","+surf(def[1].patch(patch),u,k)+"]").v("z",Mat(z.col(k))); os<<r.str(); } os<<']';
      out.push_back(Rec().s("t","pts").s("id",id).i("n",n).i("m",nz).raw("p",os.str()).str()); }
    auto set=[&](const std::string & w, int k){ out.push_back(Rec().s("t","set").s("id",id).s("what",w).i("k",k).str()); };
    const MaterialOutput G=MaterialOutput::Generic; index_t last=0;
    for (index_t i=1;;i++)
    {
        // a life ends with the class by each criterion
        const std::string key="q"+util::to_string(i); std::string q;
        if (s.count(key)) q=S(s,key); else { if (last==6) break; static const char * fin[]={"crit0","class","crit1","class","crit2","class"}; q=fin[last++]; } const int k = q.back()-'0';
        if (q=="none") continue;
        if (q=="def1"||q=="def2") { if (g.n(2)) w->setDeformed(&def[k-1]); else w->setDeformed(typename gsFunctionSet<real_t>::Ptr(sh[k-1])); set("def",k); continue; }
        if (q=="upd1"||q=="upd2") { if (g.n(2)) w->updateDeformed(&def[k-1]); else w->updateDeformed(typename gsFunctionSet<real_t>::Ptr(sh[k-1])); set("upd",k); continue; }
        if (q=="exp1"||q=="exp2") { w->updateDeformed(&def[k-1]); set("upd",k); w->options().setSwitch("Explicit",true); set("exp",1); continue; }
        if (q=="expoff") { w->options().setSwitch("Explicit",false); set("exp",0); continue; }
        if (q=="slack0"||q=="slack1") { const double v=k?g.u(0.001,0.6):0; w->options().setReal("SlackMultiplier",v); out.push_back(Rec().s("t","set").s("id",id).s("what","slack").v("v",std::vector<double>{v}).str()); continue; }
        if (q.substr(0,4)=="crit") { w->material()->options().setInt("TensionField",k); set("crit",k); continue; }
        Rec r; r.s("t","q").s("id",id);
        if (q=="VectorN1"||q=="VectorN2"||q=="MatrixA1"||q=="MatrixA2") { set("def",k); q.pop_back(); }
        r.s("q",q);
        try {
            Mat v;
            if (q=="class") v=w->eval3D_tensionfield(patch,u,z,MaterialOutput::TensionField);
            else if (q=="stress") v=w->eval3D_stress(patch,u,z,G);
            else if (q=="vector") v=w->eval3D_vector(patch,u,z,G);
            else if (q=="strain") v=w->eval3D_strain(patch,u,z);
            else if (q=="matrix") v=w->eval3D_matrix(patch,u,z,G);
            else if (q=="cauchy") v=w->eval3D_CauchyStress(patch,u,z,G);
            else if (q=="pstress") v=w->eval3D_pstress(patch,u,z,G);
            else if (q=="pstrain") v=w->eval3D_pstrain(patch,u,z);
            else if (q=="theta") v=w->eval3D_theta(patch,u,z,G);
            else if (q=="gamma") v=w->eval3D_gamma(patch,u,z,G);
            else if (q=="baseStress") v=w->material()->eval3D_stress(patch,u,z,G);
            else if (q=="thickness") w->thickness_into(patch,u,v);
            else if (q=="density") w->density_into(patch,u,v);
            else if (q=="VectorN") { gsMaterialMatrixIntegrate<real_t,MaterialOutput::VectorN> J(w.get(),&def[k-1]); J.piece(patch).eval_into(u,v); }
            else if (q=="MatrixA") { gsMaterialMatrixIntegrate<real_t,MaterialOutput::MatrixA> J(w.get(),&def[k-1]); J.piece(patch).eval_into(u,v); }
            else GISMO_ERROR("question "<<q);
            r.s("how","ok").i("rows",v.rows()).i("cols",v.cols()).cols("val",v);
        } catch (const std::exception & e) { r.s("how","throw").i("rows",0).i("cols",0).raw("val","[]").s("what",std::string(e.what()).substr(0,160)); }
        out.push_back(r.str());
    }
}
static void run(const Scen & s, std::vector<std::string> & out)
{
    const bool lin=I(s,"lin")!=0, d2=I(s,"d")==2;
    if (lin) { if (d2) live<gsMaterialMatrixTFT<2,real_t,true> >(s,out); else live<gsMaterialMatrixTFT<3,real_t,true> >(s,out); }
    else { if (d2) live<gsMaterialMatrixTFT<2,real_t,false> >(s,out); else live<gsMaterialMatrixTFT<3,real_t,false> >(s,out); }
}
int main(int c, char ** v) { return runAll(c,v,run); }
