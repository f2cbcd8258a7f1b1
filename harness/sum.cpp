// Sums of functions as configurations: made, copied, destroyed and asked in any order while their terms change.
#include "shell.h"
#include <gsKLShell/src/gsFunctionSum.h>
using namespace kl;
typedef gsFunctionSum<real_t> Sum;
typedef gsMaterialMatrixIntegrate<real_t,MaterialOutput::VectorN> IntN;
static void sums(const Scen & s, std::vector<std::string> & out)
{
    Rng g(I(s,"seed")); const std::string id=S(s,"id"); Scen t=s; const bool bend=g.n(2);
    t["bend"]=bend?"1":"0"; t["impl"]="A"; t["comp"]=g.n(2)?"1":"0"; t["mats"]="one"; t["par"]="var"; t["body"]="zero"; t["loads"]="0"; t["bc"]="none"; t["pm"]="0";
    Problem P=problem(t,g); const index_t d=P.d, np=P.mp.nPatches();
    // the surface, two deformations in its space, one of higher degree
    std::vector<gsMultiPatch<real_t> > T(4);
    auto draw=[&](index_t k){ gsMultiPatch<real_t> a=P.mp; if (k==3) for (index_t p=0;p!=np;p++) a.patch(p).degreeElevate(1);
        const gsMultiPatch<real_t> a0=a; perturb(a,g,0.08); if (k) for (index_t p=0;p!=np;p++) a.patch(p).coefs() -= a0.patch(p).coefs();
        if (T[k].nPatches()) for (index_t p=0;p!=np;p++) T[k].patch(p).coefs()=a.patch(p).coefs(); else T[k]=a; };      // later changes happen in place
    for (index_t k=0;k!=4;k++) draw(k);
    Mat u(2,3); for (index_t k=0;k!=3;k++) u.col(k)<<g.u(),g.u(); u.col(2)<<g.n(2),1;
    auto one=[&](const Mat & m){ std::vector<double> v(m.data(),m.data()+m.size()); return v; };
    auto js=[&](const std::vector<double> & v){ std::ostringstream o; o<<'['; for (size_t i=0;i!=v.size();i++) { if (i) o<<','; putReal(o,v[i]); } o<<']'; return o.str(); };
    auto term=[&](index_t k){ std::ostringstream o; o<<'['; for (index_t p=0;p!=np;p++) { if (p) o<<','; const gsGeometry<real_t> & q=T[k].patch(p); o<<'['<<js(one(q.eval(u)))<<','<<js(one(q.deriv(u)))<<','<<js(one(q.deriv2(u)))<<']'; } o<<']';
        out.push_back(Rec().s("t","term").s("id",id).i("k",k+1).raw("v",o.str()).str()); };
    out.push_back(Rec().s("t","begin").s("id",id).str());
    for (index_t k=0;k!=4;k++) term(k);
    struct Slot { void * at; Sum * f; std::vector<index_t> q; }; std::vector<Slot> L;
    std::istringstream ops(S(s,"ops")); std::string op;
    while (std::getline(ops,op,';'))
    {
        std::vector<std::string> a; { std::istringstream is(op); std::string x; while (std::getline(is,x,',')) a.push_back(x); }
        auto N=[&](int k){ return std::atol(a[k].c_str()); };
        if (a[0]=="new")
        {
            Slot x; std::vector<const gsFunctionSet<real_t>*> f; std::ostringstream o; o<<'['; for (size_t k=2;k<a.size();k++) { x.q.push_back(N(k)-1); f.push_back(&T[N(k)-1]); if (k>2) o<<','; o<<N(k); } o<<']';
            x.at=std::malloc(sizeof(Sum)); x.f = N(1) ? new (x.at) Sum(f[0],f[1]) : new (x.at) Sum(f); L.push_back(x);
            out.push_back(Rec().s("t","new").s("id",id).raw("q",o.str()).str());
        }
        else if (a[0]=="copy") { Slot x=L[N(1)-1]; x.at=std::malloc(sizeof(Sum)); x.f=new (x.at) Sum(*L[N(1)-1].f); L.push_back(x); out.push_back(Rec().s("t","copy").s("id",id).i("i",N(1)).str()); }
        else if (a[0]=="kill") { Slot & x=L[N(1)-1]; x.f->~Sum(); std::memset(x.at,0,sizeof(Sum)); out.push_back(Rec().s("t","kill").s("id",id).i("i",N(1)).str()); }    // its memory stays ours and is wiped
        else if (a[0]=="bend") { draw(N(1)-1); term(N(1)-1); }
        else if (a[0]=="ask")
        {
            const Slot & x=L[N(1)-1]; const Sum & f=*x.f; int w=N(2); std::ostringstream o; o<<'[';
            index_t surf0=0; for (size_t k=0;k!=x.q.size();k++) surf0 += x.q[k]==0;
            if (w>=4 && surf0!=1) w=3;            // not a configuration
            if (w<4) for (index_t p=0;p!=np;p++)
            {
                if (p) o<<','; const gsFunction<real_t> & q=f.piece(p); Mat r; o<<'[';
                if (w==0) { if (g.n(2)) q.eval_into(u,r); else r=q.clone()->eval(u); o<<js(one(r)); } else if (w==1) { q.deriv_into(u,r); o<<js(one(r)); } else if (w==2) { q.deriv2_into(u,r); o<<js(one(r)); }
                else { std::vector<Mat> v; q.evalAllDers_into(u,2,v); for (size_t k=0;k!=v.size();k++) { if (k) o<<','; o<<js(one(v[k])); } }
                o<<']';
            }
            else
            {
                gsMultiPatch<real_t> m=P.mp; bool high=false; for (size_t k=0;k!=x.q.size();k++) high = high || x.q[k]==3;
                if (high) for (index_t p=0;p!=np;p++) m.patch(p).degreeElevate(1);
                for (index_t p=0;p!=np;p++) { m.patch(p).coefs().setZero(); for (size_t k=0;k!=x.q.size();k++) { gsGeometry<real_t>::uPtr c=T[x.q[k]].patch(p).clone(); if (high && x.q[k]!=3) c->degreeElevate(1); m.patch(p).coefs() += c->coefs(); } }
                auto two=[&](const std::vector<double> & y, const std::vector<double> & z){ if (o.str().size()>1) o<<','; o<<'['<<js(y)<<','<<js(z)<<']'; };
                if (w==4)
                {
                    memory::unique_ptr<Shell> A(P.make(true)); std::vector<double> r[3][2]; A->assemble(); const Mat v=rvec(g,A->numDofs());
                    for (int k=0;k!=2;k++) { const gsFunctionSet<real_t> & c = k ? (const gsFunctionSet<real_t>&)f : (const gsFunctionSet<real_t>&)m;
                        A->assembleVector(c); r[0][k]=one(A->rhs()); A->assembleMatrix(c); r[1][k]=one(Mat(A->matrix()*v)); r[2][k].assign(1,A->getArea(c)); }
                    for (int k=0;k!=3;k++) two(r[k][0],r[k][1]);
                }
                else for (index_t p=0;p!=np;p++)
                {
                    std::vector<double> r[2]; for (int k=0;k!=2;k++) { IntN n(P.mm[0].get(),&P.mp,k?(const gsFunctionSet<real_t>*)&f:(const gsFunctionSet<real_t>*)&m); r[k]=one(n.piece(p).eval(u)); }
                    two(r[0],r[1]);
                }
            }
            o<<']';
            out.push_back(Rec().s("t","ask").s("id",id).i("i",N(1)).i("w",w).i("d",d).i("np",f.nPieces()).i("nf",f.funcSize()).i("dom",f.domainDim()).i("tar",f.targetDim()).raw("v",o.str()).str());
        }
    }
}
int main(int c, char ** v) { return runAll(c,v,sums,200); }
