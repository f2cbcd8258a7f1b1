// Lives of material objects: replays operation histories generated from spec/MatOps.tla.
#include "matdef.h"
using namespace kl;
typedef gsMaterialMatrixBase<real_t> MM;
typedef gsMaterialMatrixContainer<real_t> Con;

// one affine field per patch
struct PField { std::vector<Field> f;
    FunPtr fun(index_t d, bool pw) const
    {
        if (!pw) return f[0].fun(d);
        typename gsPiecewiseFunction<real_t>::FunctionContainer dummy;
        gsPiecewiseFunction<real_t> * r = new gsPiecewiseFunction<real_t>();
        for (size_t k=0;k!=f.size();k++) { FunPtr g=f[k].fun(d); r->addPiece(*static_cast<gsFunction<real_t>*>(g.get())); }
        return FunPtr(r);
    }
    std::string json() const { std::ostringstream os; os<<'['; for (size_t k=0;k!=f.size();k++) { if(k)os<<','; os<<'['; putReal(os,f[k].c); os<<','; putReal(os,f[k].gx); os<<','; putReal(os,f[k].gy); os<<']'; } os<<']'; return os.str(); } };
struct World
{
    index_t d, np; std::vector<gsMultiPatch<real_t> > geo; Mat u; // candidate points
    std::vector<MM*> objs; std::vector<MM::Ptr> owned; std::vector<FunPtr> keep; std::vector<MatDef> defs;
    std::vector<index_t> kindOf; // definition of each object
    Con con; std::vector<index_t> conObj;
    struct Ev { int kind; std::vector<memory::shared_ptr<gsFunction<real_t> > > f; std::vector<std::string> q; Mat z; std::vector<index_t> on; };
    std::vector<Ev> evs;
    World() : con(0) {}
};
static PField around(const Field & b, Rng & g, index_t np, bool var, bool & pw)
{
    PField r; pw = g.n(2)==0;
    Field f = b; f.c *= g.u(0.9,1.1); if (var) { f.gx=g.u(-0.1,0.1); f.gy=g.u(-0.1,0.1); }
    for (index_t p=0;p!=np;p++) { if (p && pw) { f.c *= g.u(0.92,1.08); if (var) f.gx = g.u(-0.1,0.1); } r.f.push_back(f); }
    return r;
}
static void query(std::vector<std::string> & out, const std::string & id, const std::string & q, std::function<Mat()> f)
{
    Rec r; r.s("t","q").s("id",id).s("q",q);
    try { Mat v = f(); r.s("how","ok").i("rows",v.rows()).i("cols",v.cols()).cols("val",v); }
    catch (const std::exception & e) { r.s("how","throw").i("rows",0).i("cols",0).raw("val","[]").s("what",std::string(e.what()).substr(0,160)); }
    out.push_back(r.str());
}
static void askObj(World & w, MM * m, index_t p, const Mat & u, const Mat & z, Rng & g, std::vector<std::string> & out, const std::string & id)
{
    const MaterialOutput G = MaterialOutput::Generic;
    typedef std::pair<std::string,std::function<Mat()> > Q;
    std::vector<Q> qs;
    qs.push_back(Q("stress",[&]{return m->eval3D_stress(p,u,z,G);}));
    qs.push_back(Q("vector",[&]{return m->eval3D_vector(p,u,z,G);}));
    qs.push_back(Q("matrix",[&]{return m->eval3D_matrix(p,u,z,G);}));
    qs.push_back(Q("strain",[&]{return m->eval3D_strain(p,u,z);}));
    qs.push_back(Q("deformation",[&]{return m->eval3D_deformation(p,u,z);}));
    qs.push_back(Q("pstretch",[&]{return m->eval3D_pstretch(p,u,z);}));
    qs.push_back(Q("pstrain",[&]{return m->eval3D_pstrain(p,u,z);}));
    qs.push_back(Q("pstress",[&]{return m->eval3D_pstress(p,u,z,G);}));
    qs.push_back(Q("detF",[&]{return m->eval3D_detF(p,u,z,G);}));
    qs.push_back(Q("cauchy",[&]{return m->eval3D_CauchyStress(p,u,z,G);}));
    qs.push_back(Q("cpstress",[&]{return m->eval3D_CauchyPStress(p,u,z,G);}));
    qs.push_back(Q("thickness",[&]{Mat r; m->thickness_into(p,u,r); return r;}));
    qs.push_back(Q("density",[&]{Mat r; m->density_into(p,u,r); return r;}));
    qs.push_back(Q("parameters",[&]{Mat r; m->parameters_into(p,u,r); return r;}));
    // two or three questions in random order; directions together with their values
    const int n = 2+g.n(2);
    for (int k=0;k!=n;k++)
    {
        if (g.n(5)==0)
        {
            static const char * name[] = {"spec2cov","spec2con","cov2cart","con2cart","pstretchTransform","pstressTransform"};
            const int t=g.n(6);
            auto T=[&](MM & mm, const Mat & uu, const Mat & zz)->Mat { switch (t) { case 0: return mm.eval3D_spec2cov(p,uu,zz); case 1: return mm.eval3D_spec2con(p,uu,zz); case 2: return mm.eval3D_cov2cart(p,uu,zz); case 3: return mm.eval3D_con2cart(p,uu,zz); case 4: return mm.eval3D_pstretchTransform(p,uu,zz); default: return mm.eval3D_pstressTransform(p,uu,zz); } };
            Rec r; r.s("t","q").s("id",id).s("q",name[t]);
            try {
                Mat v=T(*m,u,z), a(9,u.cols()*z.rows()); MM::uPtr c=m->clone();
                for (index_t j=0;j!=z.rows();j++) for (index_t i=0;i!=u.cols();i++) { Mat zz(1,1); zz(0,0)=z(j,i); a.col(j*u.cols()+i)=T(*c,Mat(u.col(i)),zz); }
                r.s("how","ok").i("rows",v.rows()).i("cols",v.cols()).cols("val",v).cols("alone",a); }
            catch (const std::exception & e) { r.s("how","throw").i("rows",0).i("cols",0).raw("val","[]").s("what",std::string(e.what()).substr(0,160)); }
            out.push_back(r.str());
            continue;
        }
        const Q & q = qs[g.n(qs.size())];
        query(out,id,q.first,q.second);
        if (q.first=="pstretch") query(out,id,"pstretchDir",[&]{return m->eval3D_pstretchDir(p,u,z);});
        if (q.first=="pstress")  query(out,id,"pstressDir",[&]{return m->eval3D_pstressDir(p,u,z,G);});
    }
    (void)w;
}
template<MaterialOutput o> static memory::shared_ptr<gsFunction<real_t> > mkEval(MM * m, const Con * c, const gsFunctionSet<real_t> * un, const gsFunctionSet<real_t> * de, const Mat & z)
{
    typedef gsMaterialMatrixEval<real_t,o> E;
    E * e = c ? (un ? new E(*c,un,de,z) : new E(*c,de,z)) : (un ? new E(m,un,de,z) : new E(m,de,z));
    return memory::shared_ptr<gsFunction<real_t> >(e);
}
template<MaterialOutput o> static memory::shared_ptr<gsFunction<real_t> > mkInt(MM * m, const Con * c, const gsFunctionSet<real_t> * un, const gsFunctionSet<real_t> * de)
{
    typedef gsMaterialMatrixIntegrate<real_t,o> E;
    E * e = c ? (un ? new E(*c,un,de) : new E(*c,de)) : (un ? new E(m,un,de) : new E(m,de));
    return memory::shared_ptr<gsFunction<real_t> >(e);
}
static Mat at(const memory::shared_ptr<gsFunction<real_t> > & f, index_t p, const Mat & u) { Mat r; f->piece(p).eval_into(u,r); return r; }
static Mat stack(const Mat & a, const Mat & b) { Mat r(a.rows()+b.rows(),a.cols()); r << a, b; return r; }
static void askEv(World & w, index_t e, index_t p, const Mat & u, Rng & g, std::vector<std::string> & out, const std::string & id)
{
    World::Ev & ev = w.evs[e];
    if (ev.kind==1)
    {
        if (g.n(2)) query(out,id,"NM",[&]{ return stack(at(ev.f[0],p,u),at(ev.f[1],p,u)); });
        else        query(out,id,"ABCD",[&]{ return stack(stack(at(ev.f[2],p,u),at(ev.f[3],p,u)),stack(at(ev.f[4],p,u),at(ev.f[5],p,u))); });
        return;
    }
    for (int k=0;k!=2;k++) { const int i = g.n(ev.f.size()); query(out,id,ev.q[i],[&]{ return at(ev.f[i],p,u); }); }
}
static void run(const Scen & s, std::vector<std::string> & out)
{
    const std::string id=S(s,"id"); Rng g(I(s,"seed"));
    World w; w.d=I(s,"d"); w.np=I(s,"np"); const index_t d=w.d, np=w.np;
    const std::string shape=S(s,"shape");
    for (int k=0;k!=2;k++) { w.geo.push_back(geometry(shape,d,np,2,1)); if (k) { Rng h(I(s,"seed")+5); perturb(w.geo.back(),h,0.08); } }
    w.geo.push_back(deform(w.geo[0],"mid",g)); w.geo.push_back(deform(w.geo[0],"homog",g));
    const int NP=5; w.u.resize(2,NP); for (int k=0;k!=NP;k++) { w.u(0,k)=g.u(0.05,0.95); w.u(1,k)=g.u(0.05,0.95); }
    {
        std::ostringstream os; os<<'[';
        for (size_t q=0;q!=w.geo.size();q++) { if(q)os<<','; os<<'['; for (index_t p=0;p!=np;p++) { if(p)os<<','; os<<'['; for (int k=0;k!=NP;k++) { if(k)os<<',';
            Mat x=w.geo[q].patch(p).eval(w.u.col(k)); os << Rec().v("x",x).raw("s",surf(w.geo[q].patch(p),w.u,k)).str(); } os<<']'; } os<<']'; }
        os<<']';
        out.push_back(Rec().s("t","start").s("id",id).i("np",np).raw("geo",os.str()).str());
    }
    // two kinds of material
    for (int k=0;k!=2;k++) { Scen t=s; t["law"]=S(s,k?"law2":"law"); t["impl"]=S(s,k?"impl2":"impl"); t["comp"]=S(s,k?"comp2":"comp"); t["par"]=g.n(2)?"var":"const"; w.defs.push_back(matdef(t,g)); }
    w.con = Con(np); w.conObj.assign(np,-1);
    gsPiecewiseFunction<real_t> * x=0; (void)x;
    std::istringstream ops(S(s,"ops")); std::string op;
    auto sel=[&](const std::string & to, index_t o, index_t p, int b, bool ev)
    {
        // batch: 0 one point, 1 all in order, 2 reversed, 3 random with repetition
        std::vector<long> k; if (b==0) k.push_back(1+g.n(NP)); else if (b==1) for (int i=1;i<=3;i++) k.push_back(i); else if (b==2) for (int i=3;i>=1;i--) k.push_back(i); else for (int i=0;i!=3;i++) k.push_back(1+g.n(NP));
        const index_t n=k.size(), m = ev ? (w.evs[o].kind==1 ? 1 : w.evs[o].z.rows()) : 1+g.n(2);
        Mat u(2,n), z(m,n); for (index_t i=0;i!=n;i++) { u.col(i)=w.u.col(k[i]-1); for (index_t j=0;j!=m;j++) z(j,i) = ev ? (w.evs[o].kind==1 ? 0 : w.evs[o].z(j,0)) : g.u(-0.5,0.5); }
        out.push_back(Rec().s("t","sel").s("id",id).s("to",to).i("o",o+1).i("p",p+1).i("m",m).iv("k",k).cols("z",z).str());
        if (ev) askEv(w,o,p,u,g,out,id);
        else askObj(w, to=="obj" ? w.objs[o] : w.con.piece(p), p,u,z,g,out,id);
    };
    while (std::getline(ops,op,';'))
    {
        std::vector<std::string> a; { std::istringstream is(op); std::string t; while (std::getline(is,t,',')) a.push_back(t); }
        auto N=[&](int k){ return std::atol(a[k].c_str()); };
        const std::string & c=a[0];
        if (c=="new")
        {
            const index_t k=N(1)-1, gi=N(2); MatDef & md=w.defs[k];
            MM::uPtr m = md.make(w.geo[0]); w.keep.insert(w.keep.end(),md.keep.begin(),md.keep.end());
            m->setDeformed(&w.geo[gi-1]);
            auto rep=[&](const Field & f){ PField q; for (index_t p=0;p!=np;p++) q.f.push_back(f); return q.json(); };
            std::ostringstream ps; ps<<'['; for (size_t i=0;i!=md.par.size();i++) { if(i)ps<<','; ps<<rep(md.par[i]); } ps<<']';
            out.push_back(Rec().s("t","new").s("id",id).s("law",md.law).s("impl",md.impl).b("comp",md.comp).i("d",d).i("ori",1).i("def",gi)
                .raw("par",ps.str()).raw("thick",rep(md.thick)).raw("rho",rep(md.rho)).str());
            w.owned.push_back(MM::Ptr(m.release())); w.objs.push_back(w.owned.back().get()); w.kindOf.push_back(k);
        }
        else if (c=="def") { MM * m=w.objs[N(1)-1]; gsFunctionSet<real_t> * q=&w.geo[N(2)-1]; if (N(3)) m->setDeformed(MM::function_ptr(q->clone().release())); else m->setDeformed(q);
            out.push_back(Rec().s("t","def").s("id",id).i("o",N(1)).i("g",N(2)).str()); }
        else if (c=="ori") { MM * m=w.objs[N(1)-1]; gsFunctionSet<real_t> * q=&w.geo[N(2)-1]; if (N(3)) m->setUndeformed(MM::function_ptr(q->clone().release())); else m->setUndeformed(q);
            out.push_back(Rec().s("t","ori").s("id",id).i("o",N(1)).i("g",N(2)).str()); }
        else if (c=="par"||c=="thick"||c=="rho")
        {
            const index_t o=N(1)-1, how=N(3); MM * m=w.objs[o]; const MatDef & md=w.defs[w.kindOf[o]];
            const bool par=c=="par"; index_t i = par ? g.n(md.par.size()) : 0; bool pw;
            const bool isnu = par && i==1;
            PField f = around(par ? md.par[i] : c=="thick" ? md.thick : md.rho, g, np, !isnu, pw);
            FunPtr h = f.fun(d,pw); w.keep.push_back(h);
            if (par)
            {
                if (how==0) m->setParameter(i,*h); else if (how==1) m->setParameter(i,h);
                else { if (i==0) m->setYoungsModulus(*h); else if (i==1) m->setPoissonsRatio(*h); else if (md.law=="MR") m->setRatio(*h);
                       else if (md.law=="OG") { if (i%2==0) m->setMu((i-2)/2,*h); else m->setAlpha((i-2)/2,*h); } else m->setParameter(i,*h); }
            }
            else if (c=="thick") { if (how==1) m->setThickness(h); else m->setThickness(*h); }
            else { if (how==1) m->setDensity(h); else m->setDensity(*h); }
            Rec r; r.s("t",c).s("id",id).i("o",o+1); if (par) r.i("i",i+1); r.raw("f",f.json()); out.push_back(r.str());
        }
        else if (c=="copy") { const index_t o=N(1)-1; w.owned.push_back(MM::Ptr(w.objs[o]->clone().release())); w.objs.push_back(w.owned.back().get()); w.kindOf.push_back(w.kindOf[o]);
            out.push_back(Rec().s("t","copy").s("id",id).i("o",o+1).str()); }
        else if (c=="put")
        {
            const index_t p=N(1)-1,o=N(2)-1,how=N(3);
            if (how==0) { w.con.set(p,*w.objs[o]); w.owned.push_back(MM::Ptr()); w.objs.push_back(w.con.piece(p)); w.kindOf.push_back(w.kindOf[o]); }
            else if (how==1) w.con.set(p,w.objs[o]);
            else w.con.set(p,memory::make_shared_not_owned(w.objs[o]));
            out.push_back(Rec().s("t","put").s("id",id).i("p",p+1).i("o",o+1).i("w",how).str());
            if (how==0) { static std::vector<Con> pin; pin.push_back(w.con); } // the object stays reachable for later questions
        }
        else if (c=="fill")
            for (index_t p=0;p!=np;p++) { const index_t o=N(p%2==0?1:2)-1; w.con.set(p,w.objs[o]); out.push_back(Rec().s("t","put").s("id",id).i("p",p+1).i("o",o+1).i("w",1).str()); }
        else if (c=="mk")
        {
            const int kind=N(1), onc=N(2); const index_t o=N(3), un=N(4), gi=N(5);
            MM * m = onc ? 0 : w.objs[o-1]; const Con * cc = onc ? &w.con : 0;
            const gsFunctionSet<real_t> * U = un ? &w.geo[un-1] : 0, * D = &w.geo[gi-1];
            World::Ev ev; ev.kind=kind;
            if (kind==0)
            {
                ev.z.resize(1+g.n(2),1); for (index_t j=0;j!=ev.z.rows();j++) ev.z(j,0)=g.u(-0.5,0.5);
                #define E_(name,o_) ev.q.push_back(name); ev.f.push_back(mkEval<MaterialOutput::o_>(m,cc,U,D,ev.z));
                E_("vector",Generic) E_("pstretch",Stretch) E_("pstress",PStress) E_("strain",Strain) E_("stress",Stress) E_("density",Density) E_("thickness",Thickness) E_("parameters",Parameters) E_("deformation",Deformation) E_("matrix",MatrixA)
            }
            else
            {
                #define I_(o_) ev.f.push_back(mkInt<MaterialOutput::o_>(m,cc,U,D));
                I_(VectorN) I_(VectorM) I_(MatrixA) I_(MatrixB) I_(MatrixC) I_(MatrixD)
            }
            w.evs.push_back(ev);
            out.push_back(Rec().s("t","mk").s("id",id).i("w",onc).i("o",o).i("u",un).i("g",gi).str());
        }
        else if (c=="ask") sel("obj",N(1)-1,N(2)-1,N(3),false);
        else if (c=="askc") sel("con",0,N(1)-1,N(2),false);
        else if (c=="aske") sel("ev",N(1)-1,N(2)-1,N(3),true);
        else if (c=="end") { for (size_t o=0;o!=w.objs.size();o++) sel("obj",o,g.n(np),g.n(4),false); for (size_t e=0;e!=w.evs.size();e++) for (index_t p=0;p!=np;p++) sel("ev",e,p,g.n(4),true); }
        else GISMO_ERROR("op " << c);
    }
}
int main(int c, char ** v) { return runAll(c,v,run); }
