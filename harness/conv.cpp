// Solution vectors and geometries: records what an assembler makes of one when given the other.
#include "edges.h"
using namespace kl;
struct Corner { index_t patch, corner, comp; double v; };
struct Couple { index_t p1, s1, p2, s2, comp; };
static const gsBasis<real_t> & B(const Problem & P, index_t p) { return P.basis.basis(p); }
static void conv(const Scen & s, std::vector<std::string> & out)
{
    Rng g(I(s,"seed")); const std::string id=S(s,"id"); Scen t=s;
    t["loads"]="0"; t["pm"]="0"; t["body"]="cphys"; t["mats"]="one"; t["bc"]="none"; t["law"]="SvK"; t["impl"]="A"; t["comp"]="0"; t["par"]="const";
    Problem P=problem(t,g); const index_t d=P.d, np=P.mp.nPatches();
    flipLast(P,I(s,"flip"));
    const std::string data=S(s,"data"); std::vector<Corner> cor; std::vector<Couple> cpl;
    Affine gd=affine(g,d,d,0.1,data=="affine"), gp=affine(g,d,2,0.1,true);
    auto supports=[&](int from)
    {
        P.sides.clear(); cor.clear(); cpl.clear();
        for (int k=0;k!=3;k++)
        {
            const std::string w=S(s,("c"+util::to_string((from+k)%3+1)).c_str());
            SideCond c; c.patch=g.n(np); c.side=1+g.n(4); c.comp=-1; c.par=false;
            // conditions belong to the outer boundary
            for (int q=0;q<40 && P.mp.isInterface(patchSide(c.patch,c.side));q++) { c.patch=g.n(np); c.side=1+g.n(4); }
            if (w=="dall"||w=="dcomp")
            {
                c.type="D"; if (w=="dcomp") c.comp=g.n(d);
                if (data!="null") { c.par=data=="par"; c.f = c.par?gp:gd; if (w=="dcomp") { Mat r=c.f.c.row(c.comp); c.f.c=r; } }
                P.sides.push_back(c);
            }
            else if (w=="clamp"||w=="coll")
            {
                c.type=w=="clamp"?"C":"X"; c.comp=g.n(4)?(index_t)g.n(d):-1;
                if (!P.sides.empty() && g.n(2)) { c.patch=P.sides.back().patch; c.side=P.sides.back().side; }
                P.sides.push_back(c);
            }
            else if (w=="corner") { Corner q; q.patch=g.n(np); q.corner=1+g.n(4); q.comp=g.n(3)?(index_t)g.n(d):-1; q.v=data=="null"?0:g.u(-0.1,0.1); cor.push_back(q); }
            else if (w=="couple")
            {
                Couple q; q.p1=c.patch; q.s1=c.side; q.p2=g.n(np); q.s2=1+g.n(4); q.comp=g.n(3)?(index_t)g.n(d):-1;
                for (int m=0;m<60 && (P.mp.isInterface(patchSide(q.p2,q.s2)) || (q.p1==q.p2 && q.s1==q.s2));m++) { q.p2=g.n(np); q.s2=1+g.n(4); }
                cpl.push_back(q);
            }
        }
        P.makeBC();
        for (size_t k=0;k!=cor.size();k++) P.bc.addCornerValue(boxCorner(cor[k].corner),cor[k].v,cor[k].patch,0,cor[k].comp);
        for (size_t k=0;k!=cpl.size();k++) P.bc.addCoupled(cpl[k].p1,boxSide(cpl[k].s1),cpl[k].p2,boxSide(cpl[k].s2),2,0,cpl[k].comp);
    };
    supports(0);
    memory::unique_ptr<Shell> A(P.make(true));
    if (I(s,"cont")>=0) { gsOptionList o=A->options(); o.setInt("Continuity",I(s,"cont")); A->setOptions(o); }
    auto define=[&]()
    {
        Rec r; r.s("t","prob").s("id",id).i("d",d).i("cont",A->options().getInt("Continuity")).i("n",A->numDofs());
        std::ostringstream sz,x,a,c,q; sz<<'['; x<<'['; a<<'['; bool first=true; index_t off=0;
        for (index_t p=0;p!=np;p++)
        {
            if (p) sz<<','; sz<<Rec().i("n1",B(P,p).component(0).size()).i("n2",B(P,p).component(1).size()).i("off",off).str(); off+=B(P,p).size();
            const Mat & C=P.mp.patch(p).coefs(); Mat an=B(P,p).anchors();
            for (index_t k=0;k!=C.rows();k++) { if (!first) { x<<','; a<<','; } first=false; x<<'['; for (int j=0;j!=3;j++) { if (j) x<<','; putReal(x,j<d?C(k,j):0); } x<<']'; a<<'['; putReal(a,an(0,k)); a<<','; putReal(a,an(1,k)); a<<","; putReal(a,0); a<<"]"; }
        }
        sz<<']'; x<<']'; a<<']';
        r.raw("size",sz.str()).raw("cps",x.str()).raw("anc",a.str()).raw("sides",P.sidesJs());
        c<<'['; for (size_t k=0;k!=cor.size();k++) { if (k) c<<','; c<<Rec().i("patch",cor[k].patch+1).i("corner",cor[k].corner).i("comp",cor[k].comp).r("v",cor[k].v).str(); } c<<']';
        q<<'['; for (size_t k=0;k!=cpl.size();k++) { if (k) q<<','; q<<Rec().i("p1",cpl[k].p1+1).i("s1",cpl[k].s1).i("p2",cpl[k].p2+1).i("s2",cpl[k].s2).i("comp",cpl[k].comp).str(); } q<<']';
        r.raw("corners",c.str()).raw("couples",q.str());
        out.push_back(r.str());
    };
    define();
    // per component, all coefficients
    auto coefs=[&](const gsMultiPatch<real_t> & f){ std::ostringstream o; o<<'['; for (index_t c=0;c!=d;c++) { if (c) o<<','; o<<'['; bool first=true; for (size_t p=0;p!=f.nPatches();p++) { const Mat & C=f.patch(p).coefs(); for (index_t k=0;k!=C.rows();k++) { if (!first) o<<','; first=false; putReal(o,C(k,c)); } } o<<']'; } o<<']'; return o.str(); };
    auto rec=[&](const std::string & what, const Mat & u, const std::string & f){ Rec r; r.s("t","op").s("id",id).s("what",what).v("u",u).raw("f",f); out.push_back(r.str()); };
    for (int k=1;k<=8;k++)
    {
        const std::string op=S(s,("o"+util::to_string(k)).c_str()); const index_t n=A->numDofs(); Mat u=rvec(g,n); gsMultiPatch<real_t> f;
        if (op=="disp") rec("disp",u,coefs(A->constructDisplacement(u)));
        else if (op=="disp2") { A->constructDisplacement(u,f); rec("disp",u,coefs(f)); }
        else if (op=="mult") rec("disp",u,coefs(A->constructMultiPatch(u)));
        else if (op=="sol") rec("sol",u,coefs(A->constructSolution(u)));
        else if (op=="sol2") { f=A->constructSolution(rvec(g,n)); A->constructSolution(u,f); rec("sol",u,coefs(f)); }
        else if (op=="upd") { f=A->constructSolution(rvec(g,n)); A->updateMultiPatch(u,f); rec("sol",u,coefs(f)); }
        else if (op=="full")
        {
            const Mat v=A->fullSolutionVector(u); index_t N=0; for (index_t p=0;p!=np;p++) N+=B(P,p).size();
            std::ostringstream o; o<<'['; if (v.rows()==N*d) for (index_t c=0;c!=d;c++) { if (c) o<<','; o<<'['; for (index_t i=0;i!=N;i++) { if (i) o<<','; putReal(o,v(c*N+i,0)); } o<<']'; } o<<']'; rec("disp",u,o.str());
        }
        else if (op=="back") { f=A->constructDisplacement(u); const Mat v=A->constructSolutionVector(f); std::ostringstream o; o<<'['; for (index_t i=0;i!=v.rows();i++) { if (i) o<<','; putReal(o,v(i,0)); } o<<']'; rec("back",u,"["+o.str()+"]"); }
        else if (op=="map")
        {
            // the numbering the assembler reports: entry of the vector for each coefficient (0: prescribed)
            const gsDofMapper m=A->getMapper(); std::ostringstream o; o<<'['; for (index_t c=0;c!=d;c++) { if (c) o<<','; o<<'['; bool first=true; for (index_t p=0;p!=np;p++) for (index_t i=0;i!=(index_t)B(P,p).size();i++) { if (!first) o<<','; first=false; putReal(o,m.is_free(i,p,c)?u(m.index(i,p,c),0):2); } o<<']'; } o<<']'; rec("map",u,o.str());
        }
        else if (op=="hom") A->homogenizeDirichlet();
        else if (op=="lin") A->assemble();
        else if (op=="vec") A->assembleVector(P.mp);
        else if (op=="mat") A->assembleMatrix(u*0.01);
        else if (op=="mass") A->assembleMass();
        else if (op=="bc") { supports(k%3); A->updateBCs(P.bc); define(); }
        else if (op=="cont") { gsOptionList o=A->options(); o.setInt("Continuity",-1-o.getInt("Continuity")); A->setOptions(o); A->updateBCs(P.bc); define(); }
        else if (op=="copy") { if (d==2) { auto * b=dynamic_cast<gsThinShellAssembler<2,real_t,false>*>(A.get()); A.reset(new gsThinShellAssembler<2,real_t,false>(*b)); }
            else if (P.bend) { auto * b=dynamic_cast<gsThinShellAssembler<3,real_t,true>*>(A.get()); A.reset(new gsThinShellAssembler<3,real_t,true>(*b)); }
            else { auto * b=dynamic_cast<gsThinShellAssembler<3,real_t,false>*>(A.get()); A.reset(new gsThinShellAssembler<3,real_t,false>(*b)); } }
    }
}
int main(int c, char ** v) { return runAll(c,v,conv,200); }
