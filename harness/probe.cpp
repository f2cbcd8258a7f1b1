#include "kl.h"
using namespace kl;
template<short_t d> gsMaterialMatrixBase<real_t>::uPtr mk(int mat,int impl,bool comp,const gsMultiPatch<real_t>&mp,gsFunctionSet<real_t>&t,std::vector<gsFunctionSet<real_t>*>&p,gsFunctionSet<real_t>&rho){
  gsOptionList o; o.addInt("Material","",mat); o.addInt("Implementation","",impl); o.addSwitch("Compressibility","",comp);
  return getMaterialMatrix<d,real_t>(mp,t,p,rho,o);
}
template<short_t d> void go(){
  gsMultiPatch<real_t> mp=geometry("bump",d,1,2,1), def=mp; Rng g(3); perturb(def,g,0.15);
  gsConstantFunction<real_t> t(0.1,d),E(10,d),nu(0.3,d),rho(1,d),ratio(2.,d),mu1(3,d),a1(1.3,d),mu2(-2,d),a2(-2,d);
  for(int mat=1;mat<5;mat++) for(int comp=0;comp<2;comp++) for(int impl=1;impl<4;impl++){
    std::vector<gsFunctionSet<real_t>*> p; p.push_back(&E);p.push_back(&nu); if(mat==3)p.push_back(&ratio); if(mat==4){p.push_back(&mu1);p.push_back(&a1);p.push_back(&mu2);p.push_back(&a2);}
    try{ auto m=mk<d>(mat,impl,comp,mp,t,p,rho); m->setDeformed(&def);
      Mat u(2,2); u<<0.3,0.7,0.6,0.2; Mat z(2,2); z<<0.4,0.4,-0.5,-0.5;
      Mat S=m->eval3D_stress(0,u,z,MaterialOutput::Generic); Mat C=m->eval3D_matrix(0,u,z,MaterialOutput::Generic);
      std::cerr<<"d"<<d<<" mat"<<mat<<" comp"<<comp<<" impl"<<impl<<" S="<<S.row(0)<<" | "<<S.row(2)<<" C0="<<C.row(0)<<" C5="<<C.row(5)<<"\n";
    }catch(std::exception&e){std::cerr<<"mat"<<mat<<" comp"<<comp<<" impl"<<impl<<" EXC "<<std::string(e.what()).substr(0,80)<<"\n";}
  }
}
int main(){ go<3>(); go<2>(); }
