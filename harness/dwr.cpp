// Goal-oriented assembly: goals, dual vectors, operators of both spaces and error estimates, asked for in any order.
#include "edges.h"
#include <gsKLShell/src/gsThinShellAssemblerDWR.h>
#include <gsKLShell/src/gsThinShellDWRHelper.h>
using namespace kl;
typedef gsSparseMatrix<real_t> Sp;
typedef gsThinShellAssemblerDWRBase<real_t> Dwr;
static GoalFunction code(const std::string & g)
{
    return g=="disp"?GoalFunction::Displacement : g=="stretch"?GoalFunction::Stretch : g=="pstrain"?GoalFunction::PStrain : g=="pstress"?GoalFunction::PStress :
           g=="mstrain"?GoalFunction::MembraneStrain : g=="mstress"?GoalFunction::MembraneStress : g=="mforce"?GoalFunction::MembraneForce :
           g=="fstrain"?GoalFunction::FlexuralStrain : g=="fstress"?GoalFunction::FlexuralStress : g=="fmoment"?GoalFunction::FlexuralMoment :
           g=="modal"?GoalFunction::Modal : GoalFunction::Buckling;
}
static void dwr(const Scen & s, std::vector<std::string> & out)
{
    Rng g(I(s,"seed")); const std::string id=S(s,"id"); Scen t=s; t["mats"]="one"; Problem P=problem(t,g);
    const index_t d=P.d, np=P.mp.nPatches(); flipLast(P,I(s,"flip")); P.makeBC();
    for (size_t k=0;k!=P.pl.size();k++) if (!P.pl[k].par) P.pl[k].at=P.mp.patch(P.pl[k].patch).eval(P.pl[k].u);
    const gsMultiBasis<real_t> BL=P.basis; gsMultiBasis<real_t> BH=P.basis;
    BH.degreeElevate(1); if (I(s,"refh")) BH.uniformRefine();
    const index_t quB=1+I(s,"qu");
    if (!P.forceFun) P.forceFun=P.force.fun();
    memory::unique_ptr<Dwr> A; Shell * base=nullptr; const gsFunction<real_t> & F=P.fn(P.forceFun);
    #define MK(D,B) { gsThinShellAssemblerDWR<D,real_t,B> * a=new gsThinShellAssemblerDWR<D,real_t,B>(P.mp,BL,BH,P.bc,F,P.mm[0].get()); A.reset(a); base=a; }
    if (d==2) MK(2,false) else if (P.bend) MK(3,true) else MK(3,false)
    #undef MK
    { gsOptionList o=base->options(); o.setInt("Continuity",I(s,"cont")); o.setInt("ExprAssembler.quB",quB); A->setOptions(o); }
    if (!P.pl.empty()) A->setPointLoads(P.loads());
    // rules: L and H with the rule of the options, G the evaluator's rule on the finer space, X the points a goal may be asked at
    const char * rn[4]={"L","H","G","X"}; std::vector<Pt> rule[4];
    Mat X(2,3); for (index_t k=0;k!=3;k++) X.col(k)<<g.u(0.05,0.95),g.u(0.05,0.95); if (I(s,"seed")%3==0) X.col(2)<<0,1;
    for (int r=0;r!=4;r++)
    {
        if (r<3) { P.basis=r==0?BL:BH; P.quadrature(1,r==2?1:quB); P.basis=BL; rule[r]=P.pts; }
        else for (index_t k=0;k!=X.cols();k++) { Pt q; q.k='d'; q.patch=0; q.side=0; q.load=0; q.el=0; q.w=1; q.u=X.col(k); rule[r].push_back(q); }
    }
    { Rec r; r.s("t","prob").s("id",id); P.put(r); out.push_back(r.str()); }
    for (int r=0;r!=4;r++) { P.pts=rule[r]; std::ostringstream e; e<<'[';
        if (r==2) for (index_t p=0;p!=np;p++) { const std::vector<double> a=Problem::breaks(BH.basis(p),0), b=Problem::breaks(BH.basis(p),1); for (size_t j=0;j+1<b.size();j++) for (size_t i=0;i+1<a.size();i++) { if (p||i||j) e<<','; Mat x(4,1); x<<a[i],a[i+1],b[j],b[j+1]; e<<Rec().i("patch",p+1).v("box",x).str(); } }
        e<<']'; out.push_back(Rec().s("t","rule").s("id",id).s("r",rn[r]).raw("pts",P.ptsJs()).raw("els",e.str()).str()); }
    auto rec=[&](const std::string & nm, const gsMultiPatch<real_t> & f, const char * where){ for (int r=0;r!=4;r++) if (std::strchr(where,rn[r][0])) { P.pts=rule[r]; out.push_back(Rec().s("t","fld").s("id",id).s("r",rn[r]).s("n",nm).raw("p",P.at(f)).str()); } };
    rec("ori",P.mp,"LHGX");
    const gsDofMapper mL=A->getMapperL(), mH=A->getMapperH();
    auto on=[&](bool h, const Mat & v){ P.basis=h?BH:BL; gsMultiPatch<real_t> f=field(P,h?mH:mL,v); P.basis=BL; return f; };
    Mat v[2][2]; for (int h=0;h!=2;h++) for (int k=0;k!=2;k++) { v[h][k]=rvec(g,(h?mH:mL).freeSize()); rec("v"+util::to_string(k+1),on(h,v[h][k]),h?"H":"L"); rec(std::string(h?"vH":"vL")+util::to_string(k+1),on(h,v[h][k]),"X"); }
    const gsMultiPatch<real_t> zL=on(false,0.3*rvec(g,mL.freeSize())), zH=on(true,0.3*rvec(g,mH.freeSize())), uu=on(false,0.3*rvec(g,mL.freeSize()));
    rec("zL",zL,"G"); rec("zH",zH,"G"); rec("u",uu,"G");
    gsMultiPatch<real_t> C[2]; C[0]=deform(P.mp,S(s,"motion"),g); C[1]=deform(P.mp,"mid",g); for (int k=0;k!=2;k++) rec(k?"c2":"c1",C[k],"LHGX");
    rec("dir",A->constructDisplacementL(Mat::Zero(mL.freeSize(),1)),"L"); rec("dir",A->constructDisplacementH(Mat::Zero(mH.freeSize(),1)),"H");
    std::vector<patchSide> outer; for (gsBoxTopology::const_biterator b=P.mp.bBegin(); b!=P.mp.bEnd(); ++b) outer.push_back(*b);
    auto coefs=[&](const gsMultiPatch<real_t> & f){ double r=0; for (index_t p=0;p!=np;p++) for (index_t i=0;i!=f.patch(p).coefs().size();i++) r+=std::sin(1.0+p+i)*f.patch(p).coefs().at(i); return r; };
    const Mat w[3]={0.1*rvec(g,mL.freeSize()),0.1*rvec(g,mH.freeSize()),0.1*rvec(g,base->numDofs())};   // the object is itself an assembler, with its own options
    auto state=[&](){ std::vector<double> r; r.push_back(coefs(A->constructDisplacementL(w[0]))); r.push_back(coefs(A->constructDisplacementH(w[1]))); r.push_back(coefs(base->constructDisplacement(w[2]))); return r; };
    const std::vector<double> st0=state();
    for (int k=1;k<=5;k++)
    {
        std::vector<double> nr, ab, an, sq, sn; const std::string sk=util::to_string(k); std::string op=S(s,"o"+sk); const std::string goal=S(s,"g"+sk), place=S(s,"p"+sk); const index_t comp=I(s,"c"+sk); const bool h=I(s,"h"+sk); const int c=g.n(2);
        const char * cn=c?"c2":"c1"; memory::unique_ptr<gsMultiPatch<real_t> > Q(new gsMultiPatch<real_t>(C[c])), U(new gsMultiPatch<real_t>(plus(C[c],P.mp,-1)));
        const bool byVec = op=="help" && place=="dom" && P.pl.empty() && P.sides.empty() && g.n(2); gsVector<real_t> wU;    // the state given by its vector
        if (byVec) { wU=0.1*rvec(g,mL.freeSize()); cn="c3"; A->constructSolutionL(wU,*Q); A->constructMultiPatchL(wU,*U); rec("c3",*Q,"LHGX"); }
        gsBoxTopology::bContainer bn; std::ostringstream bj; bj<<'[';
        if (place=="bnd" || place=="all") { const int n=1+g.n(2); for (int q=0;q<n;q++) { const patchSide x=outer[g.n(outer.size())]; bool dup=false; for (size_t i=0;i!=bn.size();i++) dup = dup || bn[i]==x; if (dup) continue; bn.push_back(x); if (bn.size()>1) bj<<','; bj<<Rec().i("patch",x.patch+1).i("side",x.side().index()).str(); } }
        bj<<']';
        std::vector<double> r, el; bool ok=true; double evs[3]={g.u(0.5,2),g.u(0.5,2),g.u(0.5,2)}; const bool with=P.pl.empty() && P.sides.empty() ? g.n(2) : true;
        #define OK(x) ok = (x)==ThinShellAssemblerStatus::Success
        if (goal!="none") A->setGoal(code(goal),comp);
        if (op=="goal") r.push_back(place=="dom"?A->computeGoal(*Q):place=="bnd"?A->computeGoal(bn,*Q):A->computeGoal(X,*Q));
        else if (op=="dual")
        {
            const bool two=g.n(2);   // with the deformed configuration, or with the displacement alone
            if (h) { if (two) { if (place=="dom") OK(A->assembleDualH(*U,*Q)); else if (place=="bnd") OK(A->assembleDualH(bn,*U,*Q)); else OK(A->assembleDualH(X,*U,*Q)); }
                     else     { if (place=="dom") OK(A->assembleDualH(*U)); else if (place=="bnd") OK(A->assembleDualH(bn,*U)); else OK(A->assembleDualH(X,*U)); } }
            else   { if (two) { if (place=="dom") OK(A->assembleDualL(*U,*Q)); else if (place=="bnd") OK(A->assembleDualL(bn,*U,*Q)); else OK(A->assembleDualL(X,*U,*Q)); }
                     else     { if (place=="dom") OK(A->assembleDualL(*U)); else if (place=="bnd") OK(A->assembleDualL(bn,*U)); else OK(A->assembleDualL(X,*U)); } }
            const Mat D=h?A->dualH():A->dualL(); if (D.rows()!=(h?mH:mL).freeSize()) ok=false; else for (int i=0;i!=2;i++) r.push_back((v[h][i].transpose()*D)(0,0));
        }
        else if (op=="lin"||op=="linm"||op=="linp"||op=="tan"||op=="res"||op=="mass")
        {
            if (op=="lin") OK(h?A->assembleH():A->assembleL()); else if (op=="linm") OK(h?A->assembleMatrixH():A->assembleMatrixL()); else if (op=="linp") OK(h?A->assemblePrimalH():A->assemblePrimalL());
            else if (op=="tan") OK(h?A->assembleMatrixH(*Q):A->assembleMatrixL(*Q)); else if (op=="res") OK(h?A->assemblePrimalH(*Q):A->assemblePrimalL(*Q));
            else OK(h?A->assembleMassH():A->assembleMassL());
            if (op!="linp" && op!="res") { const Sp & K = op=="mass" ? (h?A->massH():A->massL()) : (h?A->matrixH():A->matrixL()); if (K.rows()!=(h?mH:mL).freeSize()) ok=false; else r.push_back((v[h][0].transpose()*(K*v[h][1]))(0,0)); }
            if (op=="lin"||op=="linp"||op=="res") { const Mat b=h?A->primalH():A->primalL(); if (b.rows()!=(h?mH:mL).freeSize()) ok=false; else r.push_back((v[h][0].transpose()*b)(0,0)); }
        }
        else if (op=="lump")
        {   // lumped: row sums of the consistent matrix
            OK(h?A->assembleMassH():A->assembleMassL()); const Sp M=h?A->massH():A->massL(); OK(h?A->assembleMassH(true):A->assembleMassL(true)); const Sp D=h?A->massH():A->massL();
            if (D.rows()!=M.rows()) ok=false; else { const Mat one=Mat::Ones(M.rows(),1); r.push_back(maxAbs(Mat(D.toDense()-Mat((M*one).asDiagonal())))/maxAbs(Mat(M*one))); }
        }
        else if (op=="err") r.push_back(h?A->computeError(zL,zH,*Q,with):A->computeError(zL,zH,with));          // h: nonlinear
        else if (op=="sqerr") r.push_back(h?A->computeSquaredError(zL,zH,*Q,with):A->computeSquaredError(zL,zH,with));
        else if (op=="errel") { el=h?A->computeErrorElements(zL,zH,*Q,with):A->computeErrorElements(zL,zH,with); r.push_back(A->error()); }
        else if (op=="sqerrel") { el=h?A->computeSquaredErrorElements(zL,zH,*Q,with):A->computeSquaredErrorElements(zL,zH,with); r.push_back(A->error()); }
        else if (op=="modal"||op=="modalel"||op=="buckl"||op=="buckel"||op=="mnorm"||op=="bnorm")
        {
            const bool b=op[0]=='b'; A->setGoal(b?GoalFunction::Buckling:GoalFunction::Modal);
            if (op=="mnorm") r.push_back(A->matrixNorm(uu,zH)); else if (op=="bnorm") r.push_back(A->matrixNorm(uu,zH,*Q));
            else if (op=="modal") r.push_back(A->computeErrorEig(evs[0],evs[1],evs[2],zL,zH,uu)); else if (op=="buckl") r.push_back(A->computeErrorEig(evs[0],evs[1],evs[2],zL,zH,uu,*Q));
            else { el = b?A->computeErrorEigElements(evs[0],evs[1],evs[2],zL,zH,uu,*Q):A->computeErrorEigElements(evs[0],evs[1],evs[2],zL,zH,uu); r.push_back(A->error()); }
        }
        else if (op=="help")
        {   // the helper: both dual problems solved, and the estimate made of them.  The duals are found here from the operators (judged on their own).
            Mat z[2]; bool fine=true;
            for (int j=0;j!=2 && fine;j++)
            {
                OK(j?A->assembleMatrixH(*Q):A->assembleMatrixL(*Q)); const Sp K=j?A->matrixH():A->matrixL();
                Mat D=Mat::Zero(K.rows(),1);
                auto more=[&](bool o){ ok = ok && o; if (o) D += j?A->dualH():A->dualL(); };
                if (place=="dom"||place=="all") more((j?A->assembleDualH(*U,*Q):A->assembleDualL(*U,*Q))==ThinShellAssemblerStatus::Success);
                if (place=="bnd"||place=="all") more((j?A->assembleDualH(bn,*U,*Q):A->assembleDualL(bn,*U,*Q))==ThinShellAssemblerStatus::Success);
                if (place=="pts"||place=="all") more((j?A->assembleDualH(X,*U,*Q):A->assembleDualL(X,*U,*Q))==ThinShellAssemblerStatus::Success);
                gsEigen::PartialPivLU<gsEigen::MatrixXd> lu(K.toDense()); fine = lu.rcond()>1e-9 && D.norm()>0;
                if (fine) z[j]=lu.solve(D);
            }
            if (!fine) op="skip";
            else
            {
                rec("hL",on(false,z[0]),"L"); rec("hH",on(true,z[1]),"H");
                gsMultiPatch<real_t> f[2]; A->constructMultiPatchL(z[0],f[0]); A->constructMultiPatchH(z[1],f[1]); rec("hL",f[0],"G"); rec("hH",f[1],"G");   // with the prescribed values
                gsThinShellDWRHelper<real_t> H(A.get()); 
                if (byVec) H.computeError(wU); else if (place=="dom" && !with && g.n(2)) H.computeError(*Q,*U); else H.computeError(*Q,*U,bn,place=="pts"||place=="all"?X:Mat(),place=="dom"||place=="all",with);
                r.push_back(H.error()); el=H.errors(); nr=H.errors(true); ab=H.absErrors(); an=H.absErrors(true); sq=H.sqErrors(); sn=H.sqErrors(true);
            }
        }
        #undef OK
        Q.reset(); U.reset(); const std::vector<double> st=state(); double dr=0; for (size_t i=0;i!=st.size();i++) dr=std::max(dr,std::fabs(st[i]-st0[i]));
        out.push_back(Rec().s("t","ask").s("id",id).s("what",op).s("goal",goal).i("comp",comp).s("place",place).b("h",h).s("cfg",cn).raw("bnds",bj.str()).b("ok",ok).b("with",with).v("ev",std::vector<double>(evs,evs+3)).v("r",r).v("el",el).v("nr",nr).v("ab",ab).v("an",an).v("sq",sq).v("sn",sn).r("drift",dr).str());
    }
}
int main(int c, char ** v) { return runAll(c,v,dwr,200); }
