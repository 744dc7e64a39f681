// independent readers of the two output formats (HDF5 through the C API, SDDS parsed directly)
#pragma once
#include "hdf5.h"
#include <string>
#include <vector>
#include <map>
#include <fstream>
#include <sstream>
#include <stdexcept>
#include <cstring>
#include <cstdint>
namespace vf {

struct H5Set { bool ok=false; std::vector<long> dims; std::vector<double> v; std::map<std::string,double> att; };
struct H5File {
    hid_t f;
    H5File(const std::string& n) { H5Eset_auto2(H5E_DEFAULT,NULL,NULL); f=H5Fopen(n.c_str(),H5F_ACC_RDONLY,H5P_DEFAULT); }
    ~H5File() { if (f>=0) H5Fclose(f); }
    bool ok() const { return f>=0; }
    static herr_t attcb(hid_t loc,const char* name,const H5A_info_t*,void* p) {
        std::map<std::string,double>* m=(std::map<std::string,double>*)p; hid_t a=H5Aopen_name(loc,name); if (a<0) return 0;
        double d=0; if (H5Aread(a,H5T_NATIVE_DOUBLE,&d)>=0) (*m)[name]=d; H5Aclose(a); return 0; }
    bool has(const char* n) { return f>=0 && H5Lexists(f,n,H5P_DEFAULT)>0; }
    H5Set get(const char* n) {
        H5Set s; if (!has(n)) return s; hid_t d=H5Dopen2(f,n,H5P_DEFAULT); if (d<0) return s; hid_t sp=H5Dget_space(d);
        int nd=H5Sget_simple_extent_ndims(sp); std::vector<hsize_t> dm(nd>0?nd:1); if (nd>0) H5Sget_simple_extent_dims(sp,dm.data(),NULL);
        size_t tot=1; for (int i=0;i<nd;i++) { s.dims.push_back((long)dm[i]); tot*=dm[i]; } s.v.resize(tot);
        s.ok = tot==0 || H5Dread(d,H5T_NATIVE_DOUBLE,H5S_ALL,H5S_ALL,H5P_DEFAULT,s.v.data())>=0;
        H5Aiterate2(d,H5_INDEX_NAME,H5_ITER_NATIVE,NULL,attcb,&s.att); H5Sclose(sp); H5Dclose(d); return s; }
};
// write a dataset of doubles/ints with attributes, for hand-made input files
struct H5Out {
    hid_t f; H5Out(const std::string& n) { f=H5Fcreate(n.c_str(),H5F_ACC_TRUNC,H5P_DEFAULT,H5P_DEFAULT); } ~H5Out() { H5Fclose(f); }
    template<class T> void put(const char* n,std::vector<hsize_t> dims,const std::vector<T>& v,std::map<std::string,int> ia={},std::map<std::string,double> da={}) {
        hid_t mt = sizeof(T)==8 ? H5T_NATIVE_DOUBLE : H5T_NATIVE_INT; hid_t sp=H5Screate_simple(dims.size(),dims.data(),NULL); hid_t d=H5Dcreate2(f,n,mt,sp,H5P_DEFAULT,H5P_DEFAULT,H5P_DEFAULT); if (v.size()) H5Dwrite(d,mt,H5S_ALL,H5S_ALL,H5P_DEFAULT,v.data());
        hid_t as=H5Screate(H5S_SCALAR); for (auto& a:ia) { hid_t h=H5Acreate2(d,a.first.c_str(),H5T_NATIVE_INT,as,H5P_DEFAULT,H5P_DEFAULT); H5Awrite(h,H5T_NATIVE_INT,&a.second); H5Aclose(h); }
        for (auto& a:da) { hid_t h=H5Acreate2(d,a.first.c_str(),H5T_NATIVE_DOUBLE,as,H5P_DEFAULT,H5P_DEFAULT); H5Awrite(h,H5T_NATIVE_DOUBLE,&a.second); H5Aclose(h); }
        H5Sclose(as); H5Sclose(sp); H5Dclose(d); }
};

struct Sdds {
    bool ok=false; std::string err; std::map<std::string,double> par; std::map<std::string,std::vector<double>> col; std::vector<std::string> colnames; long rows=0; int pages=0;
    struct Def { std::string name,type; };
    static std::string field(const std::string& l,const char* k) { std::string key=std::string(k)+"="; size_t p=0; for(;;) { p=l.find(key,p); if (p==std::string::npos) return ""; if (p==0||l[p-1]==' '||l[p-1]==',') break; p++; } p+=key.size(); if (l[p]=='"') { size_t e=l.find('"',p+1); return l.substr(p+1,e-p-1); } size_t e=l.find_first_of(", ",p); return l.substr(p,e-p); }
    static double rd(const std::string& t,const char*& p,const char* e) { if (t=="double") { if (p+8>e) throw std::runtime_error("short file"); double d; memcpy(&d,p,8); p+=8; return d; } if (t=="long"||t=="ulong") { if (p+4>e) throw std::runtime_error("short file"); int32_t d; memcpy(&d,p,4); p+=4; return d; } throw std::runtime_error("type "+t); }
    explicit Sdds(const std::string& fn) {
        try {
            std::ifstream is(fn,std::ios::binary); if (!is) { err="cannot open"; return; } std::stringstream ss; ss<<is.rdbuf(); std::string s=ss.str(); size_t p=0; std::vector<Def> ps,cs; bool bin=false,data=false;
            auto line=[&]()->std::string { if (p>=s.size()) throw std::runtime_error("unexpected end"); size_t e=s.find('\n',p); if (e==std::string::npos) e=s.size(); std::string l=s.substr(p,e-p); p=e+1; return l; };
            std::string l=line(); if (l.compare(0,4,"SDDS")) { err="no SDDS header"; return; }
            while(!data) { l=line(); if (l.empty()||l[0]=='!') continue; Def d; d.name=field(l,"name"); d.type=field(l,"type"); if (!l.compare(0,10,"&parameter")) ps.push_back(d); else if (!l.compare(0,7,"&column")) { cs.push_back(d); colnames.push_back(d.name); } else if (!l.compare(0,5,"&data")) { bin=field(l,"mode")=="binary"; data=true; } }
            if (bin) { const char* q=s.data()+p; const char* e=s.data()+s.size(); rows=(long)rd("long",q,e); for (auto& d:ps) par[d.name]=rd(d.type,q,e); for (auto& d:cs) col[d.name]; for (long i=0;i<rows;i++) for (auto& d:cs) col[d.name].push_back(rd(d.type,q,e)); if (q!=e) { err="trailing data"; return; } pages=1; }
            else { std::vector<std::string> tok; auto next=[&](){ std::string x; do x=line(); while(!x.empty()&&x[0]=='!'); return x; }; for (auto& d:ps) par[d.name]=strtod(next().c_str(),0); rows=atol(next().c_str()); for (auto& d:cs) col[d.name]; for (long i=0;i<rows;i++) { std::istringstream r(next()); std::string t; for (auto& d:cs) { if (!(r>>t)) throw std::runtime_error("short row"); char* e; col[d.name].push_back(strtod(t.c_str(),&e)); if (*e) throw std::runtime_error("bad number "+t); } if (r>>t) throw std::runtime_error("long row"); } while (p<s.size()) { l=line(); if (!l.empty()&&l[0]!='!') { err="trailing data"; return; } } pages=1; }
            ok=true;
        } catch (std::exception& e) { err=e.what(); }
    }
};
}
