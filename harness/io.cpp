// Factory requests and files: builds, writes and reads materials and containers, and records what the objects answer.
#include "matdef.h"
#include <dirent.h>
using namespace kl;
typedef gsMaterialMatrixBase<real_t> MM;
struct Dir   // scratch directory of one scenario
{
    std::string path;
    Dir() { char t[]="/tmp/klioXXXXXX"; if (!mkdtemp(t)) throw std::runtime_error("mkdtemp"); path=t; }
    ~Dir() { if (DIR * d=opendir(path.c_str())) { while (dirent * e=readdir(d)) if (e->d_name[0]!='.') unlink((path+"/"+e->d_name).c_str()); closedir(d); } rmdir(path.c_str()); }
};
static void query(std::vector<std::string> & out, const std::string & id, const std::string & q, std::function<Mat()> f)
{
    Rec r; r.s("t","q").s("id",id).s("q",q);
    try { Mat v = f(); r.s("how","ok").i("rows",v.rows()).i("cols",v.cols()).cols("val",v); }
    catch (const std::exception & e) { r.s("how","throw").i("rows",0).i("cols",0).raw("val","[]").s("what",std::string(e.what()).substr(0,160)); }
    out.push_back(r.str());
}
static void twin(std::vector<std::string> & out, const std::string & id, const std::string & q, std::function<Mat(MM &)> f, MM & a, MM & b)
{
    Rec r; r.s("t","q").s("id",id).s("q",q);
    try { Mat v=f(a), w=f(b); r.s("how","ok").i("rows",v.rows()).i("cols",v.cols()).cols("val",v).cols("alone",w); }
    catch (const std::exception & e) { r.s("how","throw").i("rows",0).i("cols",0).raw("val","[]").s("what",std::string(e.what()).substr(0,160)); }
    out.push_back(r.str());
}
// what the object answers on a problem of its own
static void ask(std::vector<std::string> & out, const std::string & id, const MatDef & md, MM & m, bool rho, Rng & g, index_t patch, const gsMultiPatch<real_t> & mp, const gsMultiPatch<real_t> & def)
{
    m.setUndeformed(&mp); m.setDeformed(&def);
    const index_t n=1+g.n(3); Mat u(2,n), z(1,n); for (index_t k=0;k!=n;k++) { u(0,k)=g.u(0.03,0.97); u(1,k)=g.u(0.03,0.97); z(0,k)=g.u(-0.5,0.5); }
    { Rec r; r.s("t","mat").s("id",id).s("mode","io").s("shape","").s("motion","").i("ng",0); md.put(r); out.push_back(r.str()); }
    std::ostringstream os; os << '[';
    for (index_t k=0;k!=n;k++)
    { if (k) os << ','; Rec r; r.v("x",Mat(mp.patch(patch).eval(u.col(k)))).raw("ori",surf(mp.patch(patch),u,k)).raw("def",surf(def.patch(patch),u,k)).v("z",Mat(z.col(k))); os << r.str(); }
    os << ']';
    out.push_back(Rec().s("t","pts").s("id",id).i("n",n).i("m",1).i("patch",patch).raw("p",os.str()).str());
    query(out,id,"stress",[&]{ return m.eval3D_stress(patch,u,z,MaterialOutput::Generic); });
    query(out,id,"matrix",[&]{ return m.eval3D_matrix(patch,u,z,MaterialOutput::Generic); });
    query(out,id,"thickness",[&]{ Mat r; m.thickness_into(patch,u,r); return r; });
    query(out,id,"parameters",[&]{ Mat r; m.parameters_into(patch,u,r); return r; });
    if (rho) query(out,id,"density",[&]{ Mat r; m.density_into(patch,u,r); return r; });
}
// definitions whose constants survive six decimals (the core prints constants that way)
static void round6(Field & f) { if (f.gx==0 && f.gy==0) f.c = std::round(f.c*1e4)/1e4; }
static MatDef definition(const Scen & s, Rng & g)
{ MatDef m=matdef(s,g); round6(m.thick); round6(m.rho); for (size_t k=0;k!=m.par.size();k++) round6(m.par[k]); return m; }
static std::string funXml(const Field & f, index_t d, int index)
{ std::ostringstream o; o.precision(17); o << "<Function type=\"FunctionExpr\" dim=\"" << d << "\" index=\"" << index << "\">" << f.expr() << "</Function>\n"; return o.str(); }
static std::string typeName(const MatDef & m)
{ std::string t; if (m.law=="SvK") t="Linear"; else t = std::string(m.comp?"Compressible":"Incompressible") + (m.law=="NHx"?"NHe":m.law); return t+util::to_string(m.d); }
static std::string matXml(const MatDef & m, const std::string & attr, bool rho, Rng & g)
{
    std::ostringstream o; o << "<MaterialMatrix type=\"" << typeName(m) << "\" " << attr << ">\n";
    std::vector<size_t> ord; for (size_t k=0;k!=m.par.size();k++) ord.push_back(k);
    for (size_t k=ord.size();k>1;k--) std::swap(ord[k-1],ord[g.n(k)]);
    std::string P="<Parameters>\n"; for (size_t k=0;k!=ord.size();k++) P += funXml(m.par[ord[k]],m.d,ord[k]); P+="</Parameters>\n";
    std::string T="<Thickness>"+funXml(m.thick,m.d,0)+"</Thickness>\n", D = rho ? "<Density>"+funXml(m.rho,m.d,0)+"</Density>\n" : "";
    if (g.n(2)) o << T << D << P; else o << P << T << D;
    o << "</MaterialMatrix>\n"; return o.str();
}
static void answer(std::vector<std::string> & out, const Scen & s, const MatDef & md, const std::string & what, bool offered, const std::string & how, const std::string & why)
{ out.push_back(Rec().s("t","req").s("id",S(s,"id")).s("what",what).s("law",md.law).s("impl",md.impl).b("comp",md.comp).b("known",offered).s("how",how).s("why",why.substr(0,120)).str()); }
template<class O> static bool write(const MM & m, gsFileData<real_t> & fd, int id) { const O * o=dynamic_cast<const O*>(&m); if (!o) return false; fd.add(*o,id); return true; }
template<class O> static bool read(const gsFileData<real_t> & fd, int id, MM::uPtr & m) { m.reset(fd.template getId<O>(id).release()); return true; }
#define TYPED(F,cond,...) \
    (cond(0,0) && (md.d==2 ? F<gsMaterialMatrixLinear<2,real_t> >(__VA_ARGS__) : F<gsMaterialMatrixLinear<3,real_t> >(__VA_ARGS__))) || \
    (cond(11,1) && (md.d==2 ? F<gsMaterialMatrixNonlinear<2,real_t,11,true> >(__VA_ARGS__) : F<gsMaterialMatrixNonlinear<3,real_t,11,true> >(__VA_ARGS__))) || \
    (cond(11,0) && (md.d==2 ? F<gsMaterialMatrixNonlinear<2,real_t,11,false> >(__VA_ARGS__) : F<gsMaterialMatrixNonlinear<3,real_t,11,false> >(__VA_ARGS__))) || \
    (cond(12,1) && (md.d==2 ? F<gsMaterialMatrixNonlinear<2,real_t,12,true> >(__VA_ARGS__) : F<gsMaterialMatrixNonlinear<3,real_t,12,true> >(__VA_ARGS__))) || \
    (cond(13,1) && (md.d==2 ? F<gsMaterialMatrixNonlinear<2,real_t,13,true> >(__VA_ARGS__) : F<gsMaterialMatrixNonlinear<3,real_t,13,true> >(__VA_ARGS__))) || \
    (cond(13,0) && (md.d==2 ? F<gsMaterialMatrixNonlinear<2,real_t,13,false> >(__VA_ARGS__) : F<gsMaterialMatrixNonlinear<3,real_t,13,false> >(__VA_ARGS__))) || \
    (cond(34,1) && (md.d==2 ? F<gsMaterialMatrixNonlinear<2,real_t,34,true> >(__VA_ARGS__) : F<gsMaterialMatrixNonlinear<3,real_t,34,true> >(__VA_ARGS__))) || \
    (cond(34,0) && (md.d==2 ? F<gsMaterialMatrixNonlinear<2,real_t,34,false> >(__VA_ARGS__) : F<gsMaterialMatrixNonlinear<3,real_t,34,false> >(__VA_ARGS__)))
static int code(const MatDef & md) { return md.law=="SvK" ? 0 : 10*md.implCode()+md.matCode(); }
static MM * wrap(const MatDef & md, MM * m, bool own)
{
    (void)own;
    if (md.law=="SvK") return md.d==2 ? (MM*)new gsMaterialMatrixTFT<2,real_t,true>(m) : (MM*)new gsMaterialMatrixTFT<3,real_t,true>(m);
    return md.d==2 ? (MM*)new gsMaterialMatrixTFT<2,real_t,false>(m) : (MM*)new gsMaterialMatrixTFT<3,real_t,false>(m);
}
static bool isTFT(const MM * m)
{ return dynamic_cast<const gsMaterialMatrixTFT<2,real_t,true>*>(m) || dynamic_cast<const gsMaterialMatrixTFT<3,real_t,true>*>(m)
      || dynamic_cast<const gsMaterialMatrixTFT<2,real_t,false>*>(m) || dynamic_cast<const gsMaterialMatrixTFT<3,real_t,false>*>(m); }

static void runFactory(const Scen & s, std::vector<std::string> & out, Rng & g)
{
    static const char * laws[]={"SvK","NH","NHx","MR","OG","?"}; static const char * impls[]={"C","A","G","S","?"};
    Scen t=s; const int mc=I(s,"mat"), ic=I(s,"imp"); t["law"]=laws[mc]; t["impl"]=impls[ic]; t["par"]=S(s,"par");
    MatDef md=matdef(t,g); const bool rho=I(s,"rho"); std::vector<FunPtr> keep; std::vector<gsFunctionSet<real_t>*> p;
    gsMultiPatch<real_t> mp=geometry("bump",md.d,2,2,1), def=deform(mp,"mid",g);
    for (size_t k=0;k!=md.par.size();k++) { keep.push_back(md.par[k].fun(md.d)); p.push_back(keep.back().get()); }
    FunPtr th=md.thick.fun(md.d), rh=md.rho.fun(md.d);
    gsOptionList o;
    // options at their default may be left out
    if (!(mc==0 && g.n(2))) o.addInt("Material","",mc==5?17:mc);
    if (!(ic==1 && g.n(2))) o.addInt("Implementation","",ic==4?9:ic);
    if (!(!md.comp && g.n(2))) o.addSwitch("Compressibility","",md.comp);
    MM::uPtr m; std::string why;
    try
    {
        if (md.d==2) { if (rho) m=getMaterialMatrix<2,real_t>(mp,*th,p,*rh,o); else m=getMaterialMatrix<2,real_t>(mp,*th,p,o); }
        else         { if (rho) m=getMaterialMatrix<3,real_t>(mp,*th,p,*rh,o); else m=getMaterialMatrix<3,real_t>(mp,*th,p,o); }
    } catch (const std::exception & e) { why=e.what(); }
    answer(out,s,md,"factory",mc<5 && ic<4,m?"ok":"refused",why);
    if (!m) return;
    { bool kind=false; const MM & o=*m;
      #define IS(id) (md.d==2 ? (md.comp ? dynamic_cast<const gsMaterialMatrixNonlinear<2,real_t,id,true>*>(&o)!=nullptr : dynamic_cast<const gsMaterialMatrixNonlinear<2,real_t,id,false>*>(&o)!=nullptr) \
                              : (md.comp ? dynamic_cast<const gsMaterialMatrixNonlinear<3,real_t,id,true>*>(&o)!=nullptr : dynamic_cast<const gsMaterialMatrixNonlinear<3,real_t,id,false>*>(&o)!=nullptr))
      switch (code(md)) { case 0: kind = md.d==2 ? dynamic_cast<const gsMaterialMatrixLinear<2,real_t>*>(&o)!=nullptr : dynamic_cast<const gsMaterialMatrixLinear<3,real_t>*>(&o)!=nullptr; break;
        case 11: kind=IS(11); break; case 12: kind=IS(12); break; case 13: kind=IS(13); break; case 21: kind=IS(21); break; case 22: kind=IS(22); break; case 23: kind=IS(23); break;
        case 31: kind=IS(31); break; case 32: kind=IS(32); break; case 33: kind=IS(33); break; case 34: kind=IS(34); break; default: kind=true; }
      if (!kind) answer(out,s,md,"another-kind",false,"ok",""); }
    if (m->hasDensity()!=rho) { answer(out,s,md,"density-"+std::string(rho?"lost":"invented"),false,"ok",""); }
    ask(out,S(s,"id"),md,*m,rho,g,g.n(2),mp,def);
}
static void runFile(const Scen & s, std::vector<std::string> & out, Rng & g)
{
    Dir dir; const index_t n=I(s,"objs"), w=g.n(n); const bool rho=I(s,"rho"), tft=I(s,"tft"), hand=I(s,"hand"); std::string door=S(s,"door");
    if (!I(s,"kept")) door="id";   // nothing but its number can name a material that was not written
    gsMultiPatch<real_t> mp=geometry("bump",I(s,"d"),2,2,1), def=deform(mp,"mid",g);
    std::vector<MatDef> md; std::vector<MM::uPtr> mm, base; std::vector<bool> T;
    // the wanted material among others, which are linear; the first one of its kind when no number is given
    const index_t want = door=="first" ? 0 : w;
    for (index_t k=0;k!=n;k++) { Scen t=s; if (k!=want) { t["law"]="SvK"; t["impl"]="A"; t["comp"]="0"; } md.push_back(definition(t,g)); T.push_back(k==want ? tft : g.n(2)); }
    const std::string file=dir.path+"/m"; int id0=100+g.n(50);
    if (hand)
    {
        std::ofstream f((file+".xml").c_str()); f << "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<xml>\n"; static const char * yes[]={"1","true","True"}; static const char * no[]={"0","false",""};
        for (index_t k=0;k!=n;k++) { std::ostringstream a; a << "id=\"" << id0+k << "\" label=\"m" << k << "\""; const char * v=T[k]?yes[g.n(3)]:no[g.n(3)]; if (T[k] || g.n(2)) a << " TFT=\"" << v << "\""; f << matXml(md[k],a.str(),rho,g); }
        f << "</xml>\n";
    }
    else
    {
        gsFileData<real_t> fd; std::string why;
        for (index_t k=0;k!=n;k++)
        {
            const MatDef & D=md[k]; std::vector<gsFunctionSet<real_t>*> p; MatDef & M=md[k]; M.keep.clear();
            if (!rho) { // a material without density
                for (size_t q=0;q!=M.par.size();q++) { M.keep.push_back(M.par[q].fun(M.d)); p.push_back(M.keep.back().get()); } M.keep.push_back(M.thick.fun(M.d));
                gsOptionList o; o.addInt("Material","",M.matCode()); o.addInt("Implementation","",M.implCode()); o.addSwitch("Compressibility","",M.comp);
                base.push_back(M.d==2 ? getMaterialMatrix<2,real_t>(mp,*M.keep.back(),p,o) : getMaterialMatrix<3,real_t>(mp,*M.keep.back(),p,o)); }
            else base.push_back(M.make(mp));
            if (T[k]) mm.push_back(MM::uPtr(wrap(D,base.back().get(),false)));
        }
        size_t q=0;
        try { for (index_t k=0;k!=n;k++) { const MM & o = T[k] ? *mm[q++] : *base[k]; const MatDef & D=md[k];
            if (door=="typed" && k==want) { const MatDef & md=D; auto is=[&](int c, int co){ return code(md)==c && (c==0 || md.comp==(co!=0)); }; if (!(TYPED(write,is,o,fd,id0+k))) fd.add<MM>(o,id0+k); }
            else fd.add<MM>(o,id0+k); } }
        catch (const std::exception & e) { answer(out,s,md[want],"file",true,"refused",e.what()); return; }
        fd.save(file);
    }
    gsFileData<real_t> in(file+".xml"); MM::uPtr m; std::string why;
    try
    {
        if (door=="first") m=in.getFirst<MM>();
        else if (door=="anyfirst") { m=in.getAnyFirst<MM>(); }
        else if (door=="label" && hand) m=in.getLabel<MM>("m"+util::to_string(want));
        else if (door=="all") { std::vector<MM::uPtr> all=in.getAll<MM>(); if ((index_t)all.size()==n) m=give(all[want]); }
        else if (door=="typed" && !tft) { const MatDef & D=md[want]; { const MatDef & md=D; auto is=[&](int c, int co){ return code(md)==c && (c==0 || md.comp==(co!=0)); }; if (!(TYPED(read,is,in,id0+want,m))) m=in.getId<MM>(id0+want); } }
        else m=in.getId<MM>(id0+want);
    } catch (const std::exception & e) { why=e.what(); }
    const index_t got = door=="anyfirst" ? 0 : want;
    answer(out,s,md[got],"file",true,m?"ok":"refused",why);
    if (!m) return;
    if (isTFT(m.get())!=T[got]) answer(out,s,md[got],"tension-field-flag",false,"ok","");
    if (m->material()->hasDensity()!=rho) answer(out,s,md[got],"density-"+std::string(rho?"lost":"invented"),false,"ok","");
    ask(out,S(s,"id"),md[got],*m->material(),rho,g,g.n(2),mp,def);
    // the tension-field material that was read answers as one built around the same definition, also where it wrinkles
    if (T[got] && isTFT(m.get()))
    {
        gsMultiPatch<real_t> w=mp; for (size_t p=0;p!=w.nPatches();p++) { w.patch(p).coefs().col(0) *= g.u(1.1,1.4); w.patch(p).coefs().col(1) *= g.u(0.75,0.95); }
        MatDef D=md[got]; D.keep.clear(); MM::uPtr b=D.make(mp), f(wrap(D,b.get(),false)); m->setUndeformed(&mp); f->setUndeformed(&mp); m->setDeformed(&w); f->setDeformed(&w);
        Mat u(2,2), z=Mat::Zero(1,2); u << g.u(0.1,0.9),g.u(0.1,0.9),g.u(0.1,0.9),g.u(0.1,0.9);
        twin(out,S(s,"id"),"twinStress",[&](MM & x){ return x.eval3D_stress(0,u,z,MaterialOutput::Generic); },*m,*f);
        twin(out,S(s,"id"),"twinMatrix",[&](MM & x){ return x.eval3D_matrix(0,u,z,MaterialOutput::Generic); },*m,*f);
    }
}
static void runCont(const Scen & s, std::vector<std::string> & out, Rng & g)
{
    Dir dir; const index_t np=1+g.n(4), nm=I(s,"objs"); const bool rho=I(s,"rho");
    gsMultiPatch<real_t> mp=geometry("bump",I(s,"d"),np,2,0), def=deform(mp,"mid",g);
    std::vector<MatDef> md; for (index_t k=0;k!=nm;k++) { Scen t=s; if (k>0) { t["law"]=S(s,"law2"); t["impl"]=S(s,"impl2"); t["comp"]=S(s,"comp2"); } md.push_back(definition(t,g)); }
    std::vector<index_t> of(np); for (index_t p=0;p!=np;p++) of[p]=g.n(nm);
    gsMaterialMatrixContainer<real_t> c; std::string why, how="refused"; const std::string file=dir.path+"/c.xml";
    try
    {
        if (I(s,"hand"))
        {
            std::ofstream f(file.c_str()); f << "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<xml>\n<MaterialMatrixContainer id=\"7\" size=\"" << np << "\">\n";
            std::vector<index_t> ord; for (index_t k=0;k!=nm;k++) ord.push_back(k); for (index_t k=nm;k>1;k--) std::swap(ord[k-1],ord[g.n(k)]);
            for (index_t k=0;k!=nm;k++) f << matXml(md[ord[k]],"index=\""+util::to_string(ord[k])+"\"",rho,g);
            for (index_t k=0;k!=nm;k++) { f << "<group material=\"" << ord[k] << "\">"; for (index_t p=0;p!=np;p++) if (of[p]==ord[k]) f << p << " "; f << "</group>\n"; }
            f << "</MaterialMatrixContainer>\n</xml>\n";
        }
        else
        {
            gsMaterialMatrixContainer<real_t> w; std::vector<MM::uPtr> mm; for (index_t k=0;k!=nm;k++) mm.push_back(md[k].make(mp));
            for (index_t p=0;p!=np;p++) w.add(mm[of[p]].get());
            gsFileData<real_t> fd; fd.add(w,7); fd.save(dir.path+"/c");
        }
        gsFileData<real_t> in(file);
        if (g.n(2)) { memory::unique_ptr<gsMaterialMatrixContainer<real_t> > q = in.getFirst<gsMaterialMatrixContainer<real_t> >(); if (q) { c=*q; how="ok"; } }
        else { in.getId(7,c); how="ok"; }
        if (c.size()!=np) how="refused";
    } catch (const std::exception & e) { why=e.what(); how="refused"; }
    answer(out,s,md[0],I(s,"hand")?"container-read":"container-write",true,how,why);
    if (how=="ok") for (index_t p=0;p!=np;p++) ask(out,S(s,"id"),md[of[p]],*c.piece(p),rho||!I(s,"hand"),g,p,mp,def);
}
static void run(const Scen & s, std::vector<std::string> & out)
{
    Rng g(I(s,"seed")); const std::string k=S(s,"kind");
    if (k=="factory") runFactory(s,out,g); else if (k=="file") runFile(s,out,g); else runCont(s,out,g);
}
int main(int c, char ** v) { return runAll(c,v,run); }
