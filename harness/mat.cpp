// Material points: drives the material classes and records what they answer.
#include "matdef.h"
using namespace kl;
typedef gsMaterialMatrixBase<real_t> MM;

static void query(std::vector<std::string> & out, const std::string & id, const std::string & q, std::function<Mat()> f)
{
    Rec r; r.s("t","q").s("id",id).s("q",q);
    try { Mat v = f(); r.s("how","ok").i("rows",v.rows()).i("cols",v.cols()).cols("val",v); }
    catch (const std::exception & e) { r.s("how","throw").i("rows",0).i("cols",0).raw("val","[]").s("what",std::string(e.what()).substr(0,160)); }
    out.push_back(r.str());
}
static void points(std::vector<std::string> & out, const std::string & id, const gsMultiPatch<real_t> & mp, const gsMultiPatch<real_t> & def,
                   index_t patch, const Mat & u, const Mat & z)
{
    std::ostringstream os; os << '[';
    for (index_t k=0;k!=u.cols();k++)
    {
        Mat x = mp.patch(patch).eval(u.col(k));
        if (k) os << ',';
        Rec r; r.v("x", x).raw("ori",surf(mp.patch(patch),u,k)).raw("def",surf(def.patch(patch),u,k)).v("z", Mat(z.col(k)));
        os << r.str();
    }
    os << ']';
    out.push_back(Rec().s("t","pts").s("id",id).i("n",u.cols()).i("m",z.rows()).i("patch",patch).raw("p",os.str()).str());
}
// thickness integrals, through any of the ways to build an integrator
template<MaterialOutput out>
static Mat integ(const std::string & ctor, const gsMaterialMatrixContainer<real_t> & cont, MM::uPtr & m, const gsMultiPatch<real_t> & mp, const gsMultiPatch<real_t> & def, index_t patch, const Mat & u)
{
    typedef gsMaterialMatrixIntegrate<real_t,out> Int;
    memory::unique_ptr<Int> I;
    if (ctor=="ptr") I.reset(new Int(m.get(),&def));
    else if (ctor=="uptr") I.reset(new Int(m,&def));
    else if (ctor=="cont") I.reset(new Int(cont,&def));
    else if (ctor=="ptr2") I.reset(new Int(m.get(),&mp,&def));
    else if (ctor=="uptr2") I.reset(new Int(m,&mp,&def));
    else if (ctor=="cont2") I.reset(new Int(cont,&mp,&def));
    else GISMO_ERROR("ctor");
    Mat r; I->piece(patch).eval_into(u,r);
    if (r.rows()!=I->targetDim()) GISMO_ERROR("target dimension");
    return r;
}
static Mat stack(const Mat & a, const Mat & b) { Mat r(a.rows()+b.rows(),a.cols()); r << a, b; return r; }
static void runInteg(const Scen & s, std::vector<std::string> & out)
{
    const std::string id=S(s,"id"), ctor=S(s,"ctor"); Rng g(I(s,"seed"));
    const index_t d=I(s,"d"), np=I(s,"np"), n=I(s,"n"), ng=I(s,"ng");
    gsMultiPatch<real_t> mp = geometry(S(s,"shape"),d,np,2+g.n(2),1);
    gsMultiPatch<real_t> def = deform(mp,S(s,"motion"),g);
    gsMultiPatch<real_t> first = mp;             // geometry the material is built with
    if (ctor.back()=='2') { Rng h(77+np); perturb(first,h,0.2); }
    // one definition per patch in a container, one for all otherwise
    const bool many = ctor.substr(0,4)=="cont";
    std::vector<MatDef> md; std::vector<MM::uPtr> mm; gsMaterialMatrixContainer<real_t> cont;
    for (index_t p=0;p!=(many?np:1);p++)
    {
        md.push_back(matdef(s,g)); mm.push_back(md.back().make(first));
        if (ng) mm.back()->options().addInt("NumGauss","",ng);
        cont.add(mm.back().get());
    }
    const index_t patch=g.n(np);
    Mat u(2,n), z=Mat::Zero(1,n);
    for (index_t k=0;k!=n;k++) { u(0,k)=g.u(0.03,0.97); u(1,k)=g.u(0.03,0.97); }
    const MatDef & d0 = md[many?patch:0];
    { Rec r; r.s("t","mat").s("id",id).s("mode","integ").s("shape",S(s,"shape")).s("motion",S(s,"motion")).i("ng",ng); d0.put(r); out.push_back(r.str()); }
    points(out,id,mp,def,patch,u,z);
    MM::uPtr & m = mm[0];
    #define INT(o) integ<MaterialOutput::o>(ctor,cont,m,mp,def,patch,u)
    query(out,id,"NM",[&]{ return stack(INT(VectorN),INT(VectorM)); });
    query(out,id,"ABCD",[&]{ return stack(stack(INT(MatrixA),INT(MatrixB)),stack(INT(MatrixC),INT(MatrixD))); });
    query(out,id,"cNM",[&]{ return stack(INT(CauchyVectorN),INT(CauchyVectorM)); });
    query(out,id,"pNM",[&]{ return stack(INT(PStressN),INT(PStressM)); });
    query(out,id,"density",[&]{ return INT(Density); });
}
// deformation tensor (11,22,12) of the deformed surface at the normalised height z of the material
static Mat given(MM & m, const gsMultiPatch<real_t> & def, index_t patch, const Mat & u, double z)
{
    const index_t d=def.geoDim(); Mat t; m.thickness_into(patch,u,t); const double h = d==2 ? 0 : z*t(0,0);
    Mat J=Mat(def.patch(patch).deriv(u)).reshaped(2,d), G=J*J.transpose();
    if (d==3)
    {
        Mat H=Mat(def.patch(patch).deriv2(u)).reshaped(3,3);        // rows 11,22,12
        Vec n(3); n << J(0,1)*J(1,2)-J(0,2)*J(1,1), J(0,2)*J(1,0)-J(0,0)*J(1,2), J(0,0)*J(1,1)-J(0,1)*J(1,0); n.normalize();
        Vec b=H*n; Mat B(2,2); B << b(0),b(2),b(2),b(1);
        Mat W = B*G.inverse()*B; G = Mat(G - 2*h*B + h*h*W);
    }
    Mat C(3,1); C << G(0,0),G(1,1),G(0,1); return C;
}
static void run(const Scen & s, std::vector<std::string> & out)
{
    if (S(s,"mode")=="integ") { runInteg(s,out); return; }
    const std::string id=S(s,"id"), mode=S(s,"mode"); Rng g(I(s,"seed"));
    const index_t d=I(s,"d");
    MatDef md = matdef(s,g);
    gsMultiPatch<real_t> mp = geometry(S(s,"shape"),d,I(s,"np"),2+g.n(2),1);
    gsMultiPatch<real_t> def = deform(mp,S(s,"motion"),g);
    MM::uPtr m = md.make(mp);
    m->setDeformed(&def);
    const index_t n=I(s,"n"), nz=I(s,"nz"), patch=g.n(I(s,"np"));
    Mat u(2,n), z(nz,n);
    for (index_t k=0;k!=n;k++) { u(0,k)=g.u(0.03,0.97); u(1,k)=g.u(0.03,0.97); for (index_t j=0;j!=nz;j++) z(j,k)=g.u(-0.5,0.5); }
    if (g.n(3)==0) z(0,0)=0;
    { Rec r; r.s("t","mat").s("id",id).s("mode",mode).s("shape",S(s,"shape")).s("motion",S(s,"motion")); md.put(r); out.push_back(r.str()); }
    points(out,id,mp,def,patch,u,z);
    const MaterialOutput G = MaterialOutput::Generic;
    if (mode=="stress")
    {
        query(out,id,"stress",[&]{ return m->eval3D_stress(patch,u,z,G); });
        query(out,id,"vector",[&]{ return m->eval3D_vector(patch,u,z,G); });
        // evaluation from a given deformation tensor (the linear law: at the mid-surface)
        query(out,id,"vectorC",[&]{ const index_t nh = md.law=="SvK" ? 1 : nz; Mat r(3,n*nh); for (index_t j=0;j!=nh;j++) for (index_t k=0;k!=n;k++) { const double zz = md.law=="SvK" ? 0 : z(j,k);
            Vec uu=u.col(k); r.col(j*n+k)=m->eval3D_vector_C(given(*m,def,patch,u.col(k),zz),patch,uu,zz,MaterialOutput::VectorN); } return r; });
    }
    else if (mode=="tangent")
    {
        query(out,id,"matrix",[&]{ return m->eval3D_matrix(patch,u,z,G); });
        query(out,id,"matrixC",[&]{ Mat r(9,n*nz); for (index_t j=0;j!=nz;j++) for (index_t k=0;k!=n;k++) {
            Vec uu=u.col(k); r.col(j*n+k)=m->eval3D_matrix_C(given(*m,def,patch,u.col(k),z(j,k)),patch,uu,z(j,k),MaterialOutput::MatrixA); } return r; });
        query(out,id,"dmatrix",[&]{ return m->eval3D_dmatrix(patch,u,z,G); });
    }
    else if (mode=="derived")
    {
        query(out,id,"strain",[&]{ return m->eval3D_strain(patch,u,z); });
        query(out,id,"deformation",[&]{ return m->eval3D_deformation(patch,u,z); });
        query(out,id,"pstretch",[&]{ return m->eval3D_pstretch(patch,u,z); });
        query(out,id,"pstretchDir",[&]{ return m->eval3D_pstretchDir(patch,u,z); });
        query(out,id,"B_spec2cov",[&]{ return m->eval3D_spec2cov(patch,u,z); });
        query(out,id,"B_spec2con",[&]{ return m->eval3D_spec2con(patch,u,z); });
        query(out,id,"B_cov2cart",[&]{ return m->eval3D_cov2cart(patch,u,z); });
        query(out,id,"B_con2cart",[&]{ return m->eval3D_con2cart(patch,u,z); });
        query(out,id,"B_pstretch",[&]{ return m->eval3D_pstretchTransform(patch,u,z); });
        query(out,id,"B_pstress",[&]{ return m->eval3D_pstressTransform(patch,u,z); });
        query(out,id,"pstrain",[&]{ return m->eval3D_pstrain(patch,u,z); });
        query(out,id,"pstress",[&]{ return m->eval3D_pstress(patch,u,z,G); });
        query(out,id,"pstressDir",[&]{ return m->eval3D_pstressDir(patch,u,z,G); });
        query(out,id,"detF",[&]{ return m->eval3D_detF(patch,u,z,G); });
        query(out,id,"cauchy",[&]{ return m->eval3D_CauchyStress(patch,u,z,G); });
        query(out,id,"cauchyV",[&]{ return m->eval3D_CauchyVector(patch,u,z,G); });
        query(out,id,"cpstress",[&]{ return m->eval3D_CauchyPStress(patch,u,z,G); });
        query(out,id,"thickness",[&]{ Mat r; m->thickness_into(patch,u,r); return r; });
        query(out,id,"density",[&]{ Mat r; m->density_into(patch,u,r); return r; });
        query(out,id,"parameters",[&]{ Mat r; m->parameters_into(patch,u,r); return r; });
    }
    // a single place, asked for by coordinates and height
    const index_t k0=g.n(n), j0=g.n(nz); Vec u1=u.col(k0); Mat um=u1; const real_t z1=z(j0,k0); Mat zm(1,1); zm(0,0)=z1;
    points(out,id,mp,def,patch,um,zm);
    const MM & c=*m;
    if (mode=="stress") { query(out,id,"stress",[&]{ return c.eval3D_stress(patch,u1,z1,G); }); query(out,id,"vector",[&]{ return c.eval3D_vector(patch,u1,z1,G); }); }
    else if (mode=="tangent") { query(out,id,"matrix",[&]{ return c.eval3D_matrix(patch,u1,z1,G); }); query(out,id,"dmatrix",[&]{ return c.eval3D_dmatrix(patch,u1,z1,G); }); }
    else if (mode=="derived")
    {
        query(out,id,"strain",[&]{ return c.eval3D_strain(patch,u1,z1); }); query(out,id,"cauchy",[&]{ return c.eval3D_CauchyStress(patch,u1,z1,G); });
        // stretches of the mid-surface
        if (md.comp && md.law!="SvK")
        {
            points(out,id,mp,def,patch,u,Mat::Zero(1,n));
            query(out,id,"pstretch",[&]{ Mat r; c.pstretch_into(patch,u,r); return r; });
            query(out,id,"pstretchDir",[&]{ Mat r; c.pstretchDir_into(patch,u,r); return r; });
        }
    }
}
int main(int c, char ** v) { return runAll(c,v,run); }
