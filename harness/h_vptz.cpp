// P29: virtual pan-tilt-zoom camera: geometry, playback and tracking evaluation. The graphics
// library is replaced by a small software renderer (same matrices, same texture mapping).
#include "litiv/vptz.hpp"
#include "../mc/report.hpp"
#include <opencv2/imgcodecs.hpp>
#include <sys/stat.h>
#include <cfloat>
#include <fstream>
using namespace vr;
// ---------------------------------------------------------------- software renderer
namespace sw {
    static double P[16],M[16]; static double* cur=M; static double fovy=90,aspect=1; static cv::Mat tex; static bool drawn=false,cheap=false; static long frames=0;
    static void ident(double* a) {for(int i=0;i<16;++i) a[i]=i%5==0;}
    static void mul(double* a, const double* b) {double r[16]; for(int i=0;i<4;++i) for(int j=0;j<4;++j) {r[i*4+j]=0; for(int k=0;k<4;++k) r[i*4+j]+=a[i*4+k]*b[k*4+j];} for(int i=0;i<16;++i) a[i]=r[i];}
}
extern "C" {
    GLenum glGetError(void) {return 0;}
    void glBindTexture(GLenum,GLuint) {} void glDeleteTextures(GLsizei,const GLuint*) {} void glEnable(GLenum) {} void glGenTextures(GLsizei n,GLuint* p) {for(int i=0;i<n;++i) p[i]=i+1;}
    void glLoadIdentity(void) {sw::ident(sw::cur);} void glMatrixMode(GLenum m) {sw::cur=m==GL_PROJECTION?sw::P:sw::M;}
    void glRotatef(GLfloat ang, GLfloat x, GLfloat y, GLfloat z) {double n=std::sqrt(double(x)*x+double(y)*y+double(z)*z),a=ang*CV_PI/180,c=cos(a),s=sin(a); double X=x/n,Y=y/n,Z=z/n; double r[16]={X*X*(1-c)+c,X*Y*(1-c)-Z*s,X*Z*(1-c)+Y*s,0,Y*X*(1-c)+Z*s,Y*Y*(1-c)+c,Y*Z*(1-c)-X*s,0,X*Z*(1-c)-Y*s,Y*Z*(1-c)+X*s,Z*Z*(1-c)+c,0,0,0,0,1}; sw::mul(sw::cur,r);}
    void glScalef(GLfloat x, GLfloat y, GLfloat z) {double r[16]={x,0,0,0,0,y,0,0,0,0,z,0,0,0,0,1}; sw::mul(sw::cur,r);}
    void glTexEnvf(GLenum,GLenum,GLfloat) {} void glTexParameteri(GLenum,GLenum,GLint) {}
    void glTexImage2D(GLenum,GLint,GLint,GLsizei w,GLsizei h,GLint,GLenum,GLenum,const void* d) {sw::tex=cv::Mat(h,w,CV_8UC4,(void*)d).clone();}
    void glReadPixels(GLint,GLint,GLsizei w,GLsizei h,GLenum,GLenum,void* out) {
        cv::Mat o(h,w,CV_8UC4,out); ++sw::frames; const double t=tan(sw::fovy*CV_PI/360);
        if(sw::cheap) {o.setTo(cv::Scalar(1,2,sw::tex.at<cv::Vec4b>(0,0)[2],255)); return;}
        for(int y=0;y<h;++y) for(int x=0;x<w;++x) {
            if(!sw::drawn) {o.at<cv::Vec4b>(y,x)=cv::Vec4b(0,0,0,0); continue;}
            double e[3]={(2*(x+.5)/w-1)*t*sw::aspect,(2*(y+.5)/h-1)*t,-1},d[3]; // the linear part is orthogonal up to signs: its inverse is its transpose
            for(int i=0;i<3;++i) d[i]=sw::M[i]*e[0]+sw::M[4+i]*e[1]+sw::M[8+i]*e[2];
            double r=std::sqrt(d[0]*d[0]+d[1]*d[1]+d[2]*d[2]); double s=-atan2(d[0],d[1])/(2*CV_PI),q=1-acos(std::max(-1.,std::min(1.,d[2]/r)))/CV_PI; s-=floor(s);
            o.at<cv::Vec4b>(y,x)=sw::tex.at<cv::Vec4b>(std::min(sw::tex.rows-1,int(q*sw::tex.rows)),std::min(sw::tex.cols-1,int(s*sw::tex.cols)));
        }
    }
    GLboolean glewExperimental; const GLubyte* glewGetErrorString(GLenum) {return (const GLubyte*)"";} GLenum glewInit(void) {return GLEW_OK;} GLboolean glewIsSupported(const char*) {return 1;}
    struct GLFWwindow {int x;}; int glfwInit(void) {return 1;} void glfwTerminate(void) {} void glfwWindowHint(int,int) {} GLFWwindow* glfwCreateWindow(int,int,const char*,GLFWmonitor*,GLFWwindow*) {return new GLFWwindow;} void glfwDestroyWindow(GLFWwindow* w) {delete w;} void glfwMakeContextCurrent(GLFWwindow*) {}
    GLUquadric* gluNewQuadric(void) {return (GLUquadric*)malloc(8);} void gluDeleteQuadric(GLUquadric* q) {free(q);} const GLubyte* gluErrorString(GLenum) {return (const GLubyte*)"";}
    void gluPerspective(GLdouble f, GLdouble a, GLdouble, GLdouble) {sw::fovy=f; sw::aspect=a;} void gluQuadricDrawStyle(GLUquadric*,GLenum) {} void gluQuadricOrientation(GLUquadric*,GLenum) {} void gluQuadricTexture(GLUquadric*,GLboolean) {} void gluSphere(GLUquadric*,GLdouble,GLint,GLint) {sw::drawn=true;}
}
// ---------------------------------------------------------------- reference geometry
struct V3 {double x,y,z;};
static V3 dir(double h, double v) {h*=CV_PI/180; v*=CV_PI/180; return {sin(v)*cos(h),sin(v)*sin(h),cos(v)};}
static double dot(V3 a, V3 b) {return a.x*b.x+a.y*b.y+a.z*b.z;}
static void axes(double h, double v, V3& r, V3& u) {h*=CV_PI/180; v*=CV_PI/180; r={sin(h),-cos(h),0}; u={-cos(v)*cos(h),-cos(v)*sin(h),sin(v)};}
static V3 rayOf(double x, double y, int W, int H, double fov, double h, double v) {V3 r,u,f=dir(h,v); axes(h,v,r,u); double k=H/2.0/tan(fov*CV_PI/360),a=x-W/2.0,b=-(y-H/2.0); V3 d={f.x*k+r.x*a+u.x*b,f.y*k+r.y*a+u.y*b,f.z*k+r.z*a+u.z*b}; double n=std::sqrt(dot(d,d)); return {d.x/n,d.y/n,d.z/n};}
static bool proj(V3 t, double& x, double& y, int W, int H, double fov, double h, double v) {V3 r,u,f=dir(h,v); axes(h,v,r,u); double c=dot(t,f); if(c<=0) return false; double k=H/2.0/tan(fov*CV_PI/360); x=W/2.0+dot(t,r)/c*k; y=H/2.0-dot(t,u)/c*k; return true;}
static double wrap(double a) {a=fmod(a,360); if(a>180) a-=360; if(a<=-180) a+=360; return a;}
static bool throws(const std::function<void()>& f) {try {f(); return false;} catch(const std::exception&) {return true;}}
static const std::vector<double> HS={-179.5,-135,-90,-45,-1,0,30,60,90,120,179,180},VS={0,10,45,90,100,135,180},FS={20,60,90,150};
static const std::vector<cv::Size> SZ={{1,1},{4,3},{3,4},{16,9},{7,5}};
static std::string scratchFile(const std::string& n) {return ctx().scratch+"/"+n;}
static cv::Mat pano(int f, int W=72, int H=36, int cell=6) {cv::Mat m(H,W,CV_8UC3); for(int y=0;y<H;++y) for(int x=0;x<W;++x) m.at<cv::Vec3b>(y,x)=cv::Vec3b(uchar(x/cell*10+5),uchar(y/cell*20+7),uchar(f*11+3)); return m;}
int main(int argc, char** argv) {
    init(argc,argv);
    try {
        if(is_part("geometry")) {
            for(auto sz : SZ) for(double fov : FS) for(double h : HS) for(double v : VS) {
                const int W=sz.width,H=sz.height; mark("camera %dx%d fov %g at (%g,%g)",W,H,fov,h,v);
                for(int y=0;y<H;++y) for(int x=0;x<W;++x) {
                    double th=999,tv=999; vptz::PTZPointXYtoHV(x,y,th,tv,W,H,fov,h,v); ctx().evals++; V3 want=rayOf(x,y,W,H,fov,h,v),got=dir(th,tv);
                    if(!(th>-180 && th<=180 && tv>=0 && tv<=180)) violation("angle-range",fmt("pixel (%d,%d) of camera %dx%d (%g,%g,%g) maps to angles (%.17g,%.17g) outside the documented range",x,y,W,H,fov,h,v,th,tv));
                    if(std::abs(got.x-want.x)+std::abs(got.y-want.y)+std::abs(got.z-want.z)>1e-6) violation("direction",fmt("pixel (%d,%d) of camera %dx%d fov %g at (%g,%g) maps to angles (%g,%g), a wrong direction",x,y,W,H,fov,h,v,th,tv));
                    cv::Point2d hv; vptz::PTZPointXYtoHV(cv::Point2i(x,y),hv,W,H,fov,h,v); if(hv.x!=th || hv.y!=tv) violation("direction-point","the point form gives other angles");
                    int bx=-1,by=-1; bool ok=false; if(throws([&]{ok=vptz::PTZPointHVtoXY(th,tv,bx,by,W,H,fov,h,v);}) || !ok || bx!=x || by!=y) violation("round-trip",fmt("pixel (%d,%d) of camera %dx%d fov %g at (%g,%g) comes back as (%d,%d)%s",x,y,W,H,fov,h,v,bx,by,ok?"":" or not at all"));
                }
                for(double th=-165;th<=180;th+=15) for(double tv=0;tv<=180;tv+=15) {
                    V3 t=dir(th,tv); double c=dot(t,dir(h,v)); if(std::abs(c)<1e-4) continue; int x=-7,y=-7; bool ok=vptz::PTZPointHVtoXY(th,tv,x,y,W,H,fov,h,v); ctx().evals++; ctx().nontriv+=c>0; cv::Point2i q(-7,-7); bool ok2=vptz::PTZPointHVtoXY(cv::Point2d(th,tv),q,W,H,fov,h,v);
                    if(ok2!=ok || q.x!=x || q.y!=y) violation("project-point","the point form gives another position");
                    if(ok!=(c>0)) {violation("behind",fmt("target (%g,%g) seen from (%g,%g): reported %s",th,tv,h,v,ok?"in front":"behind")); continue;}
                    if(!ok) {if(x!=INT_MAX || y!=INT_MAX) violation("behind-position","a target behind the camera got a position"); continue;}
                    double rx,ry; proj(t,rx,ry,W,H,fov,h,v); if(std::abs(rx)>1e6 || std::abs(ry)>1e6) continue;
                    auto bad=[](int g, double r) {return g!=(int)floor(r+.5) && std::abs(r+.5-floor(r+.5+.5))>1e-6;};
                    if(bad(x,rx) || bad(y,ry)) violation("project",fmt("target (%g,%g) seen by camera %dx%d fov %g at (%g,%g) is put at (%d,%d), expected (%g,%g)",th,tv,W,H,fov,h,v,x,y,rx,ry));
                }
            }
            double a,b; int x,y; // every argument outside of its documented range is refused
            const double N[]={-1e9,-180.001,-180,180.001,1e9};
            for(double h : N) {if(!throws([&]{vptz::PTZPointXYtoHV(0,0,a,b,4,3,90,h,90);})) violation("refuse-h","invalid pan angle accepted"); if(!throws([&]{vptz::PTZPointHVtoXY(h,90,x,y,4,3,90,0,90);})) violation("refuse-th","invalid target pan angle accepted"); if(!throws([&]{vptz::PTZPointHVtoXY(0,90,x,y,4,3,90,h,90);})) violation("refuse-ch","invalid camera pan angle accepted");}
            for(double v : {-0.001,180.001,-1e9,1e9}) {if(!throws([&]{vptz::PTZPointXYtoHV(0,0,a,b,4,3,90,0,v);})) violation("refuse-v","invalid tilt angle accepted"); if(!throws([&]{vptz::PTZPointHVtoXY(0,v,x,y,4,3,90,0,90);})) violation("refuse-tv","invalid target tilt angle accepted"); if(!throws([&]{vptz::PTZPointHVtoXY(0,90,x,y,4,3,90,0,v);})) violation("refuse-cv","invalid camera tilt angle accepted");}
            for(double f : {0.0,-5.0,180.0,200.0}) if(!throws([&]{vptz::PTZPointXYtoHV(0,0,a,b,4,3,f,0,90);}) || !throws([&]{vptz::PTZPointHVtoXY(0,90,x,y,4,3,f,0,90);})) violation("refuse-f","invalid field of view accepted");
            for(int w : {0,-1}) if(!throws([&]{vptz::PTZPointXYtoHV(0,0,a,b,w,3,90,0,90);}) || !throws([&]{vptz::PTZPointXYtoHV(0,0,a,b,4,w,90,0,90);}) || !throws([&]{vptz::PTZPointHVtoXY(0,90,x,y,w,3,90,0,90);}) || !throws([&]{vptz::PTZPointHVtoXY(0,90,x,y,4,w,90,0,90);})) violation("refuse-size","invalid image size accepted");
            for(int k : {-1,4,100}) if(!throws([&]{vptz::PTZPointXYtoHV(k,0,a,b,4,3,90,0,90);})) violation("refuse-x","pixel outside of the image accepted");
            for(int k : {-1,3,100}) if(!throws([&]{vptz::PTZPointXYtoHV(0,k,a,b,4,3,90,0,90);})) violation("refuse-y","pixel outside of the image accepted");
        }
        if(is_part("translator")) {
            for(double h : {-200.0,-180.0,-179.0,0.0,90.0,180.0,181.0}) for(double v : {-1.0,0.0,90.0,180.0,190.0}) {
                const bool ok=h>-180 && h<=180 && v>=0 && v<=180; ctx().evals++; mark("view angles %g %g",h,v);
                if(throws([&]{vptz::GTTranslator t(64,48,90,h,v,64,48,90);})==ok) violation("translator-angles",fmt("a translator %s the view angles (%g,%g)",ok?"refuses":"accepts",h,v));
                vptz::GTTranslator t(64,48,90,10,80,64,48,90); for(int rep=0;rep<2;++rep) if(throws([&]{t.UpdateViewAngle(h,v);})==ok) violation("translator-update",fmt("a translator %s to turn to (%g,%g)",ok?"refuses":"agrees",h,v));
                cv::Point p; double x,y; if(throws([&]{t.GetGTTargetPoint(20,85,p);})) violation("translator-state","a translator cannot be used after a change of view was asked for");
                else {bool in=proj(dir(20,85),x,y,64,48,90,ok?h:10,ok?v:80); if(in && std::abs(x)<1e6 && (std::abs(p.x-x)>.51 || std::abs(p.y-y)>.51)) violation("translator-point",fmt("target seen at (%d,%d), expected (%g,%g)",p.x,p.y,x,y)); if(!in && p.x!=INT_MAX) violation("translator-behind","a target behind the camera got a position");}
            }
            for(int w : {0,-3}) if(!throws([&]{vptz::GTTranslator t(w,48,90,0,90,64,48,90);}) || !throws([&]{vptz::GTTranslator t(64,w,90,0,90,64,48,90);}) || !throws([&]{vptz::GTTranslator t(64,48,90,0,90,w,48,90);}) || !throws([&]{vptz::GTTranslator t(64,48,90,0,90,64,w,90);})) violation("translator-size","invalid image size accepted");
            for(double f : {0.0,180.0}) if(!throws([&]{vptz::GTTranslator t(64,48,f,0,90,64,48,90);}) || !throws([&]{vptz::GTTranslator t(64,48,90,0,90,64,48,f);})) violation("translator-fov","invalid field of view accepted");
            for(double h : HS) for(double v : VS) for(double dh : {-60.0,-10.0,0.0,25.0,180.0}) for(double dv : {-20.0,0.0,30.0}) for(int bw : {0,2,9,40,64}) for(int bh : {0,3,20,48}) for(double f : {50.0,90.0}) {
                const double gh=wrap(h+dh),gv=v+dv; if(gv<0 || gv>180) continue; ctx().evals++; mark("box %dx%d fov %g at (%g,%g) seen from (%g,%g)",bw,bh,f,gh,gv,h,v);
                vptz::GTTranslator t(80,60,70,h,v,64,48,f); cv::Rect r(-5,-5,1,1); bool ok=false; if(throws([&]{ok=t.GetGTBoundingBox(gh,gv,bw,bh,r);})) {violation("box-throws",fmt("translating a %dx%d box of a 64x48 view failed",bw,bh)); continue;}
                double X[4],Y[4]; bool in=true,edge=false; for(int k=0;k<4;++k) {V3 d=rayOf(std::min(63,(64+(k&1?bw:-bw))/2),std::min(47,(48+(k&2?bh:-bh))/2),64,48,f,gh,gv); edge|=std::abs(dot(d,dir(h,v)))<0.02; in&=proj(d,X[k],Y[k],80,60,70,h,v);}
                if(edge) continue; if(ok!=in) {violation("box-behind",fmt("box reported %s",ok?"visible":"behind")); continue;} if(!in) continue; ctx().nontriv++;
                double x0=(X[0]+X[2])/2,x1=(X[1]+X[3])/2,y0=(Y[0]+Y[1])/2,y1=(Y[2]+Y[3])/2; if(x0>x1) std::swap(x0,x1); if(y0>y1) std::swap(y0,y1); double m=std::max({std::abs(x0),std::abs(x1),std::abs(y0),std::abs(y1)}); if(m>1e5) continue;
                const double tol=1.6; if(std::abs(r.x-x0)>tol || std::abs(r.y-y0)>tol || std::abs(r.x+r.width-x1)>tol || std::abs(r.y+r.height-y1)>tol) violation("box",fmt("%dx%d box (fov %g) at (%g,%g) seen from (%g,%g) is [%d,%d..%d,%d], expected [%g,%g..%g,%g]",bw,bh,f,gh,gv,h,v,r.x,r.y,r.x+r.width,r.y+r.height,x0,y0,x1,y1));
            }
            {vptz::GTTranslator t(64,48,90,0,90,64,48,90); cv::Rect r; for(int k : {-1,65,1000}) if(!throws([&]{t.GetGTBoundingBox(0,90,k,5,r);})) violation("box-refuse","a box wider than the view was accepted"); for(int k : {-1,49,1000}) if(!throws([&]{t.GetGTBoundingBox(0,90,5,k,r);})) violation("box-refuse","a box higher than the view was accepted");}
        }
        if(is_part("camera")) {
            const std::string img=scratchFile("pano.png"); cv::imwrite(img,pano(0));
            const int W=8,H=6;
            { // pictures: every pixel shows the panorama in the direction of that pixel
                for(double fov : {40.0,90.0,120.0}) {vptz::Camera c(img,fov,W,H); for(double h : HS) for(double v : VS) {
                    mark("picture fov %g at (%g,%g)",fov,h,v); c.Set(vptz::PTZ_CAM_HORI_ANGLE,h); c.Set(vptz::PTZ_CAM_VERTI_ANGLE,v); sw::drawn=false; cv::Mat f=c.GetFrame(); ctx().evals++; if(f.size()!=cv::Size(W,H) || f.type()!=CV_8UC4) {violation("picture-size","picture of the wrong size or type"); break;}
                    for(int y=0;y<H;++y) for(int x=0;x<W;++x) {
                        V3 d=rayOf(x+.5,y+.5,W,H,fov,h,v); double th=atan2(d.y,d.x)*180/CV_PI,tv=acos(std::max(-1.,std::min(1.,d.z)))*180/CV_PI; double px=(0.5-th/360)*12,py=tv/180*6; if(std::abs(px-floor(px+.5))<1e-3 || std::abs(py-floor(py+.5))<1e-3 || tv<.1 || tv>179.9) continue; ctx().nontriv++;
                        cv::Vec4b g=f.at<cv::Vec4b>(y,x); int ex=((int)floor(px)%12+12)%12*10+5,ey=(int)floor(py)*20+7; if(g[0]!=ex || g[1]!=ey) {violation("picture",fmt("pixel (%d,%d) of the picture at (%g,%g) fov %g shows panorama cell (%d,%d), expected (%d,%d)",x,y,h,v,fov,g[0]/10,g[1]/20,ex/10,ey/20)); y=H; break;}
                    }
                }}
            }
            { // histories of turns: final angles, reported changes and motion delays
                const double A[]={0,-180,180,190,-190,359,540,-540,700,-1000,45,-90};
                for(int hist=0;hist<12*12*12;++hist) {
                    mark("turns %d",hist); vptz::Camera c(img,90,W,H,0,90,100,50,0.25); double h=0; for(int k=0,q=hist;k<3;++k,q/=12) {
                        const double a=A[q%12]; c.Set(vptz::PTZ_CAM_HORI_ANGLE,a); ctx().evals++; double want=wrap(a),g=c.Get(vptz::PTZ_CAM_HORI_ANGLE); if(std::abs(g-want)>1e-9) {violation("turn",fmt("after asking for pan angle %g the camera reports %g, expected %g",a,g,want)); break;}
                        double ch=wrap(want-h); if(throws([&]{double gc=c.Get(vptz::PTZ_CAM_HORI_ANGLE_CHANGE); if(std::abs(gc-ch)>1e-9 && std::abs(std::abs(ch)-180)>1e-9) violation("turn-change",fmt("turn from %g to %g reported as %g, the shortest is %g",h,want,gc,ch));})) {violation("turn-change-throws","the change of the pan angle cannot be read"); break;}
                        double nv=30.0*(1+(hist+k)%5),ov=c.Get(vptz::PTZ_CAM_VERTI_ANGLE); c.Set(vptz::PTZ_CAM_VERTI_ANGLE,nv); if(c.Get(vptz::PTZ_CAM_VERTI_ANGLE)!=nv || std::abs(c.Get(vptz::PTZ_CAM_VERTI_ANGLE_CHANGE)-(nv-ov))>1e-9) violation("tilt","tilt angle or its change wrong");
                        if(k==2) {c.Set(vptz::PTZ_CAM_EXECUTION_DELAY_RATIO,0); c.WaitDelay(); double d=std::abs(ch)/100+std::abs(nv-ov)/50; if(std::abs(c.Get(vptz::PTZ_CAM_MOTION_DELAY)-d)>1e-9) violation("motion",fmt("motion delay %g, expected %g",c.Get(vptz::PTZ_CAM_MOTION_DELAY),d));}
                        h=want;
                    }
                }
            }
            for(double h : HS) for(double v : VS) for(double fov : {40.0,120.0}) {
                vptz::Camera c(img,fov,W,H,h,v); if(c.Get(vptz::PTZ_CAM_HORI_ANGLE)!=h || c.Get(vptz::PTZ_CAM_VERTI_ANGLE)!=v || c.Get(vptz::PTZ_CAM_VERTI_FOV)!=fov || c.Get(vptz::PTZ_CAM_OUTPUT_WIDTH)!=W || c.Get(vptz::PTZ_CAM_OUTPUT_HEIGHT)!=H || c.Get(vptz::PTZ_CAM_IS_VIDEO)!=0 || c.Get(vptz::PTZ_CAM_FRAME_NUM)!=1) violation("initial","a new camera does not report what it was given");
                for(int y=-1;y<=H;++y) for(int x=-1;x<=W;++x) {
                    mark("centre on (%d,%d) from (%g,%g)",x,y,h,v); ctx().evals++; c.Set(vptz::PTZ_CAM_HORI_ANGLE,h); c.Set(vptz::PTZ_CAM_VERTI_ANGLE,v); const bool out=x<0||y<0||x>=W||y>=H; bool th=throws([&]{if((x+y)&1) c.GoToPosition(x,y); else c.GoToPosition(cv::Point(x,y));});
                    double gh=c.Get(vptz::PTZ_CAM_HORI_ANGLE),gv=c.Get(vptz::PTZ_CAM_VERTI_ANGLE); if(th!=out) {violation("centre-refuse",fmt("centring on (%d,%d) of a %dx%d view from (%g,%g) %s",x,y,W,H,h,v,th?"failed":"was accepted")); continue;}
                    if(out) {if(gh!=h || gv!=v) violation("centre-state","a refused move changed the angles"); continue;}
                    V3 d=rayOf(x,y,W,H,fov,h,v),g=dir(gh,gv); if(std::abs(d.x-g.x)+std::abs(d.y-g.y)+std::abs(d.z-g.z)>1e-6 || gh<=-180 || gh>180) violation("centre",fmt("centring on (%d,%d) from (%g,%g) turned to (%g,%g)",x,y,h,v,gh,gv));
                    double ch=wrap(gh-h); if(std::abs(std::abs(ch)-180)>1e-6 && std::abs(c.Get(vptz::PTZ_CAM_HORI_ANGLE_CHANGE)-ch)>1e-9) violation("centre-change",fmt("turn from %g to %g reported as %g",h,gh,c.Get(vptz::PTZ_CAM_HORI_ANGLE_CHANGE)));
                    if(std::abs(c.Get(vptz::PTZ_CAM_VERTI_ANGLE_CHANGE)-(gv-v))>1e-9) violation("centre-tilt","tilt change wrong");
                    int bx=-1,by=-1; if(throws([&]{c.GoToPosition(W/2,H/2);})) violation("centre-again",fmt("no further move possible after centring on (%d,%d) from (%g,%g)",x,y,h,v)); (void)bx; (void)by;
                }
            }
            { // refused settings leave the camera as it was; a new panorama is shown at once
                vptz::Camera c(img,90,W,H,10,80,100,50,0.25); struct S {vptz::CameraPropertyFlag f; double v;}; const S bad[]={{vptz::PTZ_CAM_VERTI_FOV,0},{vptz::PTZ_CAM_VERTI_FOV,180},{vptz::PTZ_CAM_VERTI_FOV,-1},{vptz::PTZ_CAM_VERTI_ANGLE,-1},{vptz::PTZ_CAM_VERTI_ANGLE,181},{vptz::PTZ_CAM_HORI_SPEED,0},{vptz::PTZ_CAM_VERTI_SPEED,-1},{vptz::PTZ_CAM_HORI_SPEED,-2},{vptz::PTZ_CAM_VERTI_SPEED,0},{vptz::PTZ_CAM_EXECUTION_DELAY_RATIO,-0.1},{vptz::PTZ_CAM_COMMUNICATION_DELAY,-0.1},{vptz::PTZ_CAM_FRAME_POS,-1},{vptz::PTZ_CAM_FRAME_POS,1}};
                for(auto& s : bad) {double o=c.Get(s.f); ctx().evals++; if(!throws([&]{c.Set(s.f,s.v);})) violation("setting-refuse",fmt("setting %d accepted the value %g",(int)s.f,s.v)); if(c.Get(s.f)!=o) violation("setting-state",fmt("refused setting %d changed the value",(int)s.f));}
                const S good[]={{vptz::PTZ_CAM_VERTI_FOV,60},{vptz::PTZ_CAM_VERTI_ANGLE,0},{vptz::PTZ_CAM_VERTI_ANGLE,180},{vptz::PTZ_CAM_HORI_SPEED,7},{vptz::PTZ_CAM_VERTI_SPEED,8},{vptz::PTZ_CAM_EXECUTION_DELAY_RATIO,0},{vptz::PTZ_CAM_COMMUNICATION_DELAY,0},{vptz::PTZ_CAM_FRAME_POS,0},{vptz::PTZ_CAM_FRAME_RATE,5}};
                for(auto& s : good) {ctx().evals++; if(throws([&]{c.Set(s.f,s.v);}) || c.Get(s.f)!=s.v) violation("setting",fmt("setting %d does not take the value %g",(int)s.f,s.v));}
                cv::Mat p=pano(9); c.UpdatePanoImage(p); if(c.GetFrame().at<cv::Vec4b>(2,2)[2]!=9*11+3) violation("panorama","a replaced panorama is not shown");
            }
        }
        const int F=9; const std::string seq=scratchFile("img_%03d.png");
        if(is_part("playback") || is_part("evaluate")) for(int f=0;f<F;++f) cv::imwrite(scratchFile(fmt("img_%03d.png",f)),pano(f));
        if(is_part("playback")) {
            vptz::Camera c(seq,90,8,6,0,90,100,50,0.0); c.Set(vptz::PTZ_CAM_EXECUTION_DELAY_RATIO,0); if(c.Get(vptz::PTZ_CAM_IS_VIDEO)!=1 || c.Get(vptz::PTZ_CAM_FRAME_NUM)!=F) violation("video","a sequence is not recognised");
            for(int k : {-1,F,F+5}) if(!throws([&]{c.BeginPlaying(k);})) violation("begin-refuse","playback from a missing frame was accepted");
            for(double rate : {5.0,25.0}) for(int b=0;b<F;++b) for(double comm : {0.0,0.03,0.25}) for(int hist=0;hist<81;++hist) {
                if(out_of_time()) break; mark("playback rate %g from %d delay %g turns %d",rate,b,comm,hist); c.Set(vptz::PTZ_CAM_FRAME_RATE,rate); c.Set(vptz::PTZ_CAM_COMMUNICATION_DELAY,comm); c.Set(vptz::PTZ_CAM_HORI_ANGLE,0); c.Set(vptz::PTZ_CAM_VERTI_ANGLE,90); c.BeginPlaying(b); double t=b/rate; int idx=b; double h=0,v=90; ctx().evals++;
                for(int k=0,q=hist;k<4 && idx<F;++k,q/=3) {
                    double nh=h,nv=v; if(q%3==1) nh=wrap(h+7); else if(q%3==2) {nh=wrap(h-150); nv=v>90?80:100;} c.Set(vptz::PTZ_CAM_HORI_ANGLE,nh); c.Set(vptz::PTZ_CAM_VERTI_ANGLE,nv); bool more=c.WaitDelay(); t+=std::abs(wrap(nh-h))/100+std::abs(nv-v)/50+comm; double e=t*rate+.5; if(std::abs(e-floor(e+.5))<1e-6) {break;} idx=std::max((int)floor(e),idx+1); h=nh; v=nv;
                    if(c.Get(vptz::PTZ_CAM_FRAME_POS)!=idx || more!=(idx<F)) {violation("playback",fmt("after %d moves (history %d) from frame %d at %g frames/s the camera is at frame %g, expected %d (%s)",k+1,hist,b,rate,c.Get(vptz::PTZ_CAM_FRAME_POS),idx,more?"more":"end")); break;}
                    if(more) {ctx().nontriv++; cv::Mat f=c.GetFrame(); if(f.empty() || f.at<cv::Vec4b>(3,4)[2]!=idx*11+3) {violation("playback-frame",fmt("at frame %d the picture shows frame %d",idx,f.empty()?-1:(f.at<cv::Vec4b>(3,4)[2]-3)/11)); break;}}
                    else if(c.WaitDelay() || c.Get(vptz::PTZ_CAM_FRAME_POS)!=idx) violation("playback-end","playback went on after its end");
                }
            }
        }
        if(is_part("evaluate")) {
            sw::cheap=true; const int W=640,H=480,GF=2,GL=8; // ground truth for frames 2 to 8
            auto gtH=[](int f) {return wrap(170+4.0*f);}; auto gtV=[](int f) {return 90.0+(f%3)*5;}; auto gtW=[](int f) {return 30+f*2;}; auto gtHt=[](int f) {return 40-f;};
            const std::string gt=scratchFile("gt.yml"); {cv::FileStorage fs(gt,cv::FileStorage::WRITE); fs<<"totalFrameNum"<<F<<"frameImageWidth"<<320<<"frameImageHeight"<<240<<"verticalFOV"<<60.0<<"basicGroundTruth"<<"["; for(int f=GF;f<=GL;++f) fs<<"{"<<"framePos"<<f<<"width"<<gtW(f)<<"height"<<gtHt(f)<<"horizontalAngle"<<gtH(f)<<"verticalAngle"<<gtV(f)<<"}"; fs<<"]";}
            struct R {int f; double e,o,b;}; struct S {std::vector<R> r; double e,o,b,frag,oov,proc; int pot;};
            // one test run: what the camera does (aim) and what the tracker reports (track), one digit per frame
            auto run=[&](vptz::Evaluator& ev, int idx, int first, int last, int hist, int steps) {
                S s; ev.SetupTesting(idx); if(ev.GetCurrTestIdx()!=idx) violation("index","current test index wrong"); const int f0=first<0?GF:first,l0=std::min(last,GL); s.pot=l0-f0; if(ev.GetPotentialTestFrameCount()!=s.pot) violation("potential",fmt("potential frames %d, expected %d",ev.GetPotentialTestFrameCount(),s.pot));
                {cv::Rect b0; vptz::GTTranslator t(W,H,90,gtH(f0),gtV(f0),320,240,60); t.GetGTBoundingBox(gtH(f0),gtV(f0),gtW(f0),gtHt(f0),b0); if(ev.GetInitTarget().size()!=b0.size() || ev.GetInitTargetFrame().size()!=cv::Size(W,H) || ev.GetInitTargetBBox().size()!=b0.size() || (ev.GetInitTargetBBox()&cv::Rect(0,0,W,H))!=ev.GetInitTargetBBox()) violation("init-target","initial target of the wrong size"); if(ev.GetInitTargetFrame().at<cv::Vec4b>(9,9)[2]!=f0*11+3) violation("init-frame","initial frame is not the first tested one"); if(std::abs(ev.GetCurrCameraProperty(vptz::PTZ_CAM_HORI_ANGLE)-gtH(f0))>1e-9 || ev.GetCurrCameraProperty(vptz::PTZ_CAM_VERTI_ANGLE)!=gtV(f0)) violation("init-view","the camera does not start on the target");}
                ev.BeginTesting(); double se=0,so=0,sb=0; int oov=0,n=0;
                for(int k=0,q=hist;k<steps;++k,q/=16) {
                    const int aim=q&3,trk=q>>2&3; const double ch=ev.GetCurrCameraProperty(vptz::PTZ_CAM_HORI_ANGLE),cv_=ev.GetCurrCameraProperty(vptz::PTZ_CAM_VERTI_ANGLE); const int guess=std::min(GL,(int)ev.GetCurrCameraProperty(vptz::PTZ_CAM_FRAME_POS)+1); cv::Mat f;
                    if(aim==0) f=ev.GetNextFrame(gtH(guess),gtV(guess)); else if(aim==1) f=ev.GetNextFrame(cv::Point(W/2,H/2)); else if(aim==2) f=ev.GetNextFrame(wrap(gtH(guess)+38),gtV(guess)+3); else f=ev.GetNextFrame(wrap(gtH(guess)+180),90);
                    if(f.empty()) {if((int)ev.GetCurrCameraProperty(vptz::PTZ_CAM_FRAME_POS)<=l0) violation("ended-early","testing ended before the last frame"); break;}
                    const int fi=(int)ev.GetCurrCameraProperty(vptz::PTZ_CAM_FRAME_POS); if(fi>l0) violation("ended-late","testing went on after the last frame"); if(f.at<cv::Vec4b>(7,7)[2]!=fi*11+3) violation("test-frame","the picture is not the one of the current frame"); (void)ch; (void)cv_;
                    const double h=ev.GetCurrCameraProperty(vptz::PTZ_CAM_HORI_ANGLE),v=ev.GetCurrCameraProperty(vptz::PTZ_CAM_VERTI_ANGLE); vptz::GTTranslator t(W,H,90,h,v,320,240,60); cv::Point p; cv::Rect g; const bool vis=t.GetGTTargetPoint(gtH(fi),gtV(fi),p); if(!t.GetGTBoundingBox(gtH(fi),gtV(fi),gtW(fi),gtHt(fi),g)) g=cv::Rect();
                    cv::Rect mine=trk==0&&vis?g:trk==1?cv::Rect(vis?g.x+5:100,vis?g.y-4:100,30,21):trk==2?cv::Rect(200,100,2,50):cv::Rect(); if(trk==0 && !vis) mine=cv::Rect(10,10,20,20);
                    cv::Rect copy=mine; ev.UpdateCurrentResult(copy); if(copy!=mine) violation("box-kept","the tracker's box was changed"); if(ev.GetLastGTBoundingBox()!=g) violation("last-box","the box kept for display is not the one of this frame");
                    if(!throws([&]{ev.UpdateCurrentResult(copy);})) violation("twice","two results were accepted for one frame"); ctx().evals++;
                    const bool in=vis && p.x>=0 && p.y>=0 && p.x<W && p.y<H && mine.width>=3 && mine.height>=3; double inter=(g&mine).area(),uni=g.area()+mine.area()-inter,b=uni>0?inter/uni:0; R r{fi,-1,-1,b}; ++n;
                    if(in) {ctx().nontriv++; cv::Point m((mine.tl()+mine.br())*0.5); r.e=cv::norm(p-m); r.o=cv::norm(p-cv::Point(W/2,H/2)); se+=r.e; so+=r.o; sb+=b;} else ++oov; s.r.push_back(r);
                }
                ev.EndTesting(); const int ok=std::max(n-oov,1); s.e=se/ok; s.o=so/ok; s.b=sb/ok; s.frag=n?double(oov)/n:0; s.oov=double(oov)/s.pot; s.proc=double(n)/s.pot; return s;
            };
            auto near=[](double a, double b) {return std::abs(a-b)<1e-6*(1+std::abs(b));};
            auto check=[&](const cv::FileNode& n, const S& s, const char* w) {
                cv::FileNode r=n["results"]; if(r.size()!=s.r.size()) {violation("results",fmt("%s: %zu results stored, %zu expected",w,r.size(),s.r.size())); return;}
                for(size_t i=0;i<s.r.size();++i) if((int)r[(int)i]["framePos"]!=s.r[i].f || !near((double)r[(int)i]["targetPointError"],s.r[i].e) || !near((double)r[(int)i]["targetPointOffset"],s.r[i].o) || !near((double)r[(int)i]["boundingBoxOverlapRatio"],s.r[i].b)) violation("result",fmt("%s: result %zu is frame %d error %g offset %g overlap %g, expected %d %g %g %g",w,i,(int)r[(int)i]["framePos"],(double)r[(int)i]["targetPointError"],(double)r[(int)i]["targetPointOffset"],(double)r[(int)i]["boundingBoxOverlapRatio"],s.r[i].f,s.r[i].e,s.r[i].o,s.r[i].b));
                if(!near((double)n["targetPointError_avg"],s.e) || !near((double)n["targetPointOffset_avg"],s.o) || !near((double)n["bBoxOverlapRatio_avg"],s.b) || !near((double)n["trackFragmentation"],s.frag) || !near((double)n["outOfViewRatio"],s.oov) || !near((double)n["processedRatio"],s.proc) || (int)n["potential_frame_count"]!=s.pot) violation("averages",fmt("%s: averages %g %g %g %g %g %g, expected %g %g %g %g %g %g",w,(double)n["targetPointError_avg"],(double)n["targetPointOffset_avg"],(double)n["bBoxOverlapRatio_avg"],(double)n["trackFragmentation"],(double)n["outOfViewRatio"],(double)n["processedRatio"],s.e,s.o,s.b,s.frag,s.oov,s.proc));
            };
            const int lim=ctx().thorough?16*16*16:16*16*4; const std::string out=scratchFile("out.yml");
            for(int hist=0;hist<lim;++hist) {
                if(out_of_time()) break; const int first=hist%3==0?-1:hist%3==1?2:4,last=hist%2?INT_MAX:first<0?5:first+1+hist/2%3; mark("evaluation history %d frames %d..%d",hist,first,last); S s; {vptz::Evaluator ev(seq,gt,"",out,0.0,0.0,first,last); if(ev.GetTestSetSize()!=1) violation("set-size","one test expected"); s=run(ev,0,first,last,hist+hist*4096,20);}
                cv::FileStorage fs(out,cv::FileStorage::READ); if(!fs.isOpened()) violation("output","the result file cannot be read"); else {check(fs.root(),s,"single"); if((int)fs["input_totalFrameNum"]!=F || (int)fs["input_first_test_frame_idx"]!=(first<0?GF:first)) violation("header","test parameters stored wrongly");}
            }
            { // several tests in one set
                ::mkdir(scratchFile("set").c_str(),0755); const std::string st=scratchFile("set/tests.yml"); {cv::FileStorage fs(st,cv::FileStorage::WRITE); fs<<"test_set"<<"["; for(int i=0;i<3;++i) fs<<"{"<<"test_name"<<fmt("test%d",i)<<"input_scenario_path"<<"img_%03d.png"<<"input_gtseq_path"<<"gt.yml"<<"input_target_mask_path"<<"none"<<"init_frame_idx"<<(2+i)<<"last_frame_idx"<<(5+i)<<"}"; fs<<"]";}
                for(int hist=0;hist<lim;hist+=7) {
                    if(out_of_time()) break; mark("set history %d",hist); std::vector<S> all; {vptz::Evaluator ev(st,out,0.0,0.0); if(ev.GetTestSetSize()!=3) violation("set-size","three tests expected"); if(!throws([&]{ev.SetupTesting(3);}) || !throws([&]{ev.SetupTesting(-1);})) violation("set-refuse","a missing test was accepted"); for(int i=0;i<3;++i) all.push_back(run(ev,i,2+i,5+i,hist*(i+1)+i*37,20));}
                    cv::FileStorage fs(out,cv::FileStorage::READ); cv::FileNode n=fs["sequences"]; if(n.size()!=3) {violation("sequences",fmt("%zu sequences stored, 3 expected",n.size())); continue;} S m{{},0,0,0,0,0,0,0};
                    for(int i=0;i<3;++i) {check(n[i],all[i],"set"); if((int)n[i]["id"]!=i+1) violation("set-id","sequence stored under another number"); m.e+=all[i].e/3; m.o+=all[i].o/3; m.b+=all[i].b/3; m.frag+=all[i].frag/3; m.oov+=all[i].oov/3; m.proc+=all[i].proc/3; m.pot+=all[i].pot;}
                    if(!near((double)fs["targetPointError_fullavg"],m.e) || !near((double)fs["targetPointOffset_fullavg"],m.o) || !near((double)fs["bBoxOverlapRatio_fullavg"],m.b) || !near((double)fs["trackFragmentation_fullavg"],m.frag) || !near((double)fs["outOfViewRatio_fullavg"],m.oov) || !near((double)fs["processedRatio_fullavg"],m.proc) || (int)fs["tot_potential_frame_count"]!=m.pot) violation("full-averages","averages over the whole set are wrong");
                }
            }
        }
    } catch(const std::exception& e) {violation("exception",fmt("unexpected exception: %s",e.what()));}
    return finish();
}
