// Assemblers over given functions (mapped bases): what is delivered over a space, next to the same over its pieces.
#include "shell.h"
using namespace kl;
struct Space { gsSparseMatrix<real_t> C; memory::shared_ptr<gsMappedBasis<2,real_t> > mb; const gsFunctionSet<real_t> * f; gsDofMapper m; };
static gsSparseMatrix<real_t> eye(index_t n) { gsSparseMatrix<real_t> C(n,n); C.setIdentity(); return C; }
// functions of the pieces that agree along interfaces are one
static gsSparseMatrix<real_t> glue(const gsMultiBasis<real_t> & b)
{
    gsDofMapper m(b,1); for (gsBoxTopology::const_iiterator it=b.topology().iBegin(); it!=b.topology().iEnd(); ++it) b.matchInterface(*it,m);
    m.finalize(); const index_t n=b.totalSize(); gsSparseMatrix<real_t> C(n,m.freeSize()); index_t k=0;
    for (size_t p=0;p!=b.nBases();p++) for (index_t i=0;i!=(index_t)b.basis(p).size();i++,k++) C.insert(k,m.index(i,p))=1;
    C.makeCompressed(); return C;
}
static gsSparseMatrix<real_t> coarse(const gsMultiBasis<real_t> & fine, const gsMultiBasis<real_t> & co)
{
    gsSparseMatrix<real_t> C(fine.totalSize(),co.totalSize()); index_t r=0,c=0;
    for (size_t p=0;p!=co.nBases();p++)
    {
        gsBasis<real_t>::uPtr q=co.basis(p).clone(); gsSparseMatrix<real_t,RowMajor> t; q->uniformRefine_withTransfer(t,1);
        for (index_t i=0;i!=t.rows();i++) for (index_t j=0;j!=t.cols();j++) { const real_t v=t.coeff(i,j); if (v!=0) C.insert(r+i,c+j)=v; }
        r+=t.rows(); c+=t.cols();
    }
    C.makeCompressed(); return C;
}
static void space(const Scen & s, std::vector<std::string> & out)
{
    Rng g(I(s,"seed")); const std::string id=S(s,"id"); Scen t=s;
    t["impl"]="A"; t["comp"]=g.n(2)?"1":"0"; t["mats"]=I(s,"np")>1&&g.n(2)?"many":"one"; t["par"]="var";
    const bool fine = S(s,"m2").substr(0,6)=="coarse" || S(s,"m3").substr(0,6)=="coarse";
    const index_t ref=I(s,"np")==3 ? 0 : I(s,"ref"); t["ref"]=util::to_string(fine ? 1 : ref); if (fine) t["deg"]="2";
    Problem P=problem(t,g); const index_t d=P.d, np=P.mp.nPatches(), N=P.basis.totalSize();
    gsMultiBasis<real_t> co; if (fine) co=gsMultiBasis<real_t>(geometry(S(s,"shape"),d,np,I(t,"deg"),0));
    std::vector<Space> L(3);
    for (int k=0;k!=3;k++)
    {
        const std::string w = k==0 ? "own" : k==1 ? S(s,"m2") : S(s,"m3"); Space & x=L[k];
        if (w=="own"||w=="id") x.C=eye(N);
        else if (w=="glue") x.C=glue(P.basis);
        else if (w=="coarse") x.C=coarse(P.basis,co);
        else if (w=="coarseglue") { gsSparseMatrix<real_t> a=coarse(P.basis,co), b=glue(co); x.C=a*b; }
        else // any combinations, with overlapping columns
        {
            const index_t n=N-g.n(N/3); x.C=gsSparseMatrix<real_t>(N,n); Mat D=Mat::Zero(N,n); for (index_t i=0;i!=N;i++) { D(i,i%n)=g.u(0.5,1.5); if (g.n(3)==0) D(i,g.n(n))+=g.u(-1,1); }
            for (index_t j=0;j!=n;j++) for (index_t i=0;i!=N;i++) if (D(i,j)!=0) x.C.insert(i,j)=D(i,j);
        }
        x.C.makeCompressed();
        if (k) { x.mb.reset(new gsMappedBasis<2,real_t>(P.basis,x.C)); x.f=x.mb.get(); } else x.f=&P.basis;
        // unknowns: the numbering of the core for these functions and supports
        gsExprAssembler<real_t> ea; ea.setIntegrationElements(P.basis); auto u=ea.getSpace(*x.f,d,0); u.setup(P.bc,dirichlet::l2Projection,-1); x.m=u.mapper();
    }
    auto js=[&](const Mat & m){ std::ostringstream o; o<<'['; for (index_t i=0;i!=m.size();i++) { if (i) o<<','; putReal(o,m.data()[i]); } o<<']'; return o.str(); };
    auto cols=[&](const Mat & m){ std::ostringstream o; o<<'['; for (index_t j=0;j!=m.cols();j++) { if (j) o<<','; o<<js(m.col(j)); } o<<']'; return o.str(); };
    // position of function i of the space, component c, among its unknowns
    auto index=[&](int k, index_t i, index_t c){ const gsDofMapper & m=L[k].m; if (k) return m.index(i,np-1,c); index_t p=0; while (i>=(index_t)P.basis.basis(p).size()) { i-=P.basis.basis(p).size(); p++; } return m.index(i,p,c); };
    std::ostringstream sp; sp<<'[';
    for (int k=0;k!=3;k++)
    {
        const Space & x=L[k]; const Mat D=x.C; const index_t nf=x.m.freeSize(); std::vector<std::string> fr(nf);
        for (index_t c=0;c!=d;c++) for (index_t i=0;i!=D.cols();i++) { const index_t j=index(k,i,c); if (x.m.is_free_index(j)) { std::ostringstream o; o<<'['<<i+1<<','<<c+1<<']'; fr[j]+=(fr[j].empty()?"":",")+o.str(); } }
        std::ostringstream fo; fo<<'['; for (index_t j=0;j!=nf;j++) { if (j) fo<<','; fo<<'['<<fr[j]<<']'; } fo<<']';
        if (k) sp<<','; sp<<Rec().raw("col",cols(D)).raw("row",cols(D.transpose())).raw("free",fo.str()).str();
    }
    sp<<']';
    out.push_back(Rec().s("t","begin").s("id",id).raw("spaces",sp.str()).str());
    auto options=[&](Shell & a){ gsOptionList o=a.options(); o.setInt("Continuity",-1); a.setOptions(o); };
    // the same problem over the pieces, without supports; with and without the concentrated loads
    memory::unique_ptr<Shell> R[2], A[2]; gsPointLoads<real_t> none;
    A[0].reset(P.make(!P.many)); P.apply(*A[0]); options(*A[0]); A[1].reset(P.make(!P.many)); P.apply(*A[1]); options(*A[1]);
    gsPointLoads<real_t> pm; for (size_t k=0;k!=P.pm.size();k++) pm.addLoad(P.pm[k].at,P.pm[k].f,P.pm[k].patch,P.pm[k].par);
    const std::vector<SideCond> all=P.sides; P.sides.clear(); for (size_t k=0;k!=all.size();k++) if (all[k].type=="N") P.sides.push_back(all[k]);
    P.makeBC();
    for (int k=0;k!=2;k++) { R[k].reset(P.make(!P.many)); P.apply(*R[k]); options(*R[k]); if (!k) { R[k]->setPointLoads(none); R[k]->setPointMass(none); } }
    const gsDofMapper rm=R[0]->getMapper();
    auto part=[&](const Mat & v){ Mat r(N,d); index_t o=0; for (index_t p=0;p!=np;p++) { for (index_t i=0;i!=(index_t)P.basis.basis(p).size();i++) for (index_t c=0;c!=d;c++) r(o+i,c)=v(rm.index(i,p,c),0); o+=P.basis.basis(p).size(); } return r; };
    auto whole=[&](const Mat & r){ Mat v(N*d,1); index_t o=0; for (index_t p=0;p!=np;p++) { for (index_t i=0;i!=(index_t)P.basis.basis(p).size();i++) for (index_t c=0;c!=d;c++) v(rm.index(i,p,c),0)=r(o+i,c); o+=P.basis.basis(p).size(); } return v; };
    // coefficients of the pieces of the field with unknowns u
    auto glob=[&](int k, const Mat & u){ Mat G=Mat::Zero(L[k].C.cols(),d); for (index_t i=0;i!=G.rows();i++) for (index_t c=0;c!=d;c++) { const index_t j=index(k,i,c); if (L[k].m.is_free_index(j)) G(i,c)=u(j,0); } return G; };
    auto local=[&](int k, const Mat & u){ const Mat r=L[k].C*glob(k,u); return r; };
    auto moved=[&](const Mat & r){ gsMultiPatch<real_t> m=P.mp; index_t o=0; for (index_t p=0;p!=np;p++) { m.patch(p).coefs()+=r.middleRows(o,m.patch(p).coefs().rows()); o+=m.patch(p).coefs().rows(); } return m; };
    auto coefs=[&](const gsMultiPatch<real_t> & m){ Mat r=Mat::Zero(N,d); index_t o=0; for (size_t p=0;p!=m.nPatches();p++) { const Mat & c=m.patch(p).coefs(); if (o+c.rows()<=N) r.middleRows(o,c.rows())=c; o+=c.rows(); } if (o!=N) r.array()+=99; return r; };
    int at[2]={0,0}, on[2]={1,1};
    std::istringstream ops(S(s,"ops")); std::string op;
    while (std::getline(ops,op,';'))
    {
        std::vector<std::string> a; { std::istringstream is(op); std::string x; while (std::getline(is,x,',')) a.push_back(x); }
        auto n=[&](int k){ return (int)std::atol(a[k].c_str()); };
        if (a[0]=="space") { const int o=n(1)-1,k=n(2)-1; A[o]->setSpaceBasis(*L[k].f); at[o]=k; out.push_back(Rec().s("t","space").s("id",id).i("o",o+1).i("k",k+1).str()); }
        else if (a[0]=="loads") { const int o=n(1)-1,v=n(2); A[o]->setPointLoads(v?P.loads():none); A[o]->setPointMass(v?pm:none); on[o]=v; out.push_back(Rec().s("t","loads").s("id",id).i("o",o+1).i("v",v).str()); }
        else if (a[0]=="copy")
        {
            const int o=n(1)-1,q=n(2)-1;
            #define CP(D,B) { typedef gsThinShellAssembler<D,real_t,B> As; As & x=dynamic_cast<As&>(*A[o]); if (n(3)) dynamic_cast<As&>(*A[q])=x; else A[q].reset(new As(x)); }
            if (d==2) CP(2,false) else if (P.bend) CP(3,true) else CP(3,false)
            at[q]=at[o]; on[q]=on[o]; out.push_back(Rec().s("t","copy").s("id",id).i("o",o+1).i("q",q+1).str());
        }
        else if (a[0]=="ask")
        {
            const int o=n(1)-1,k=at[o]; const std::string w=a[2]; Shell & X=*A[o]; Shell & Y=*R[on[o]];
            Rec r; r.s("t","ask").s("id",id).i("o",o+1).s("w",w).i("d",d).i("on",on[o]).i("n",X.numDofs());
            if (X.numDofs()!=L[k].m.freeSize()) { out.push_back(r.str()); continue; }
            const bool lin = w=="lin"||w=="mass";
            const Mat u = lin ? Mat(Mat::Zero(L[k].m.freeSize(),1)) : Mat(0.03*rvec(g,L[k].m.freeSize())); const Mat ul=local(k,u); const gsMultiPatch<real_t> def=moved(ul); const Mat v=rvec(g,u.rows()), vl=local(k,v);
            r.v("u",u).raw("ul",cols(ul));
            if (w=="disp") r.raw("got",cols(coefs(X.constructDisplacement(u))));
            else if (w=="sol") r.raw("geo",cols(coefs(P.mp))).raw("got",cols(coefs(X.constructSolution(u))));
            else if (w=="full") { const Mat f=X.fullSolutionVector(u); const index_t m=L[k].C.cols(); Mat G=Mat::Constant(m,d,99); if (f.rows()==m*d) for (index_t c=0;c!=d;c++) G.col(c)=f.middleRows(c*m,m); r.raw("got",cols(G)); }
            else
            {
                bool vec=false, mat=false; gsSparseMatrix<real_t> K,Kl; Mat f,fl; int st=0;
                auto ok=[&](ThinShellAssemblerStatus x){ if (x!=ThinShellAssemblerStatus::Success) st++; };
                if (w=="lin") { ok(X.assemble()); ok(Y.assemble()); vec=mat=true; }
                else if (w=="vec") { ok(X.assembleVector(def)); ok(Y.assembleVector(def)); vec=true; }
                else if (w=="vecu") { ok(X.assembleVector(u)); ok(Y.assembleVector(def)); vec=true; }
                else if (w=="mat") { ok(X.assembleMatrix(def)); ok(Y.assembleMatrix(def)); mat=true; }
                else if (w=="matu") { ok(X.assembleMatrix(u)); ok(Y.assembleMatrix(def)); mat=true; }
                else if (w=="both") { ok(X.assemble(def)); ok(Y.assemble(def)); vec=mat=true; }
                else if (w=="mass") { ok(X.assembleMass()); ok(Y.assembleMass()); }
                if (st) GISMO_ERROR("assembly failed");
                std::string vs="[]", ms="[]";
                if (vec) { f=X.rhs(); fl=Y.rhs(); vs="["+Rec().raw("want",cols(part(fl))).v("got",f).str()+"]"; }
                if (mat||w=="mass")
                {
                    if (mat) { K=X.matrix(); Kl=Y.matrix(); } else { K=X.massMatrix(); Kl=Y.massMatrix(); }
                    const Mat y=K*v, yl=Kl*whole(vl); ms="["+Rec().v("v",v).raw("vl",cols(vl)).raw("want",cols(part(yl))).v("got",y).str()+"]";
                }
                r.raw("vec",vs).raw("mat",ms);
            }
            out.push_back(r.str());
        }
    }
}
int main(int c, char ** v) { return runAll(c,v,space,200); }
