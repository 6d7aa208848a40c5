#include <cairo.h>
#include <pango/pangocairo.h>
#include "script.h"
#include "widget.h"
extern "C" uint32_t g_append(struct tsm_screen*s,uint32_t sym,uint32_t c);
const CheckInfo CHECK={"C36","histories of child output of every kind, combined symbols, sizes in pixels down to a single one, view movement, pointer selections, font, anti-aliasing and highlighting changes on the example widget (a stand-in replaces the GTK base class, the pty is simulated), redrawn at random points; every drawn frame is compared pixel by pixel with an independent drawing of all cells the screen reports. Ages wrap after 255 changes. Non-trivial: at least 3 frames were compared, one of them with text, without a change of the size or the font in between",12000,120000};

struct Img { int w=0,h=0; std::vector<uint32_t> p; };
struct Mask { int w,h; std::vector<uint32_t> a; };
// ---- an independent picture of one font: metrics seen from outside, glyphs straight from pango ----
struct Font { std::string desc,aa,sub; PangoContext*ctx[4]; int baseline; int cw=0,ch=0; int ul0=-1,ul1=-1; uint32_t mark=0; std::map<std::vector<uint32_t>,Mask> glyphs; 
  cairo_antialias_t caa() const { return aa=="none"?CAIRO_ANTIALIAS_NONE:aa=="gray"?CAIRO_ANTIALIAS_GRAY:aa=="subpixel"?CAIRO_ANTIALIAS_SUBPIXEL:CAIRO_ANTIALIAS_DEFAULT; }
  void open(){ PangoFontMap*m=pango_cairo_font_map_get_default(); cairo_font_options_t*o=cairo_font_options_create(); cairo_font_options_set_antialias(o,caa()); cairo_font_options_set_subpixel_order(o,sub=="rgb"?CAIRO_SUBPIXEL_ORDER_RGB:sub=="bgr"?CAIRO_SUBPIXEL_ORDER_BGR:sub=="vrgb"?CAIRO_SUBPIXEL_ORDER_VRGB:sub=="vbgr"?CAIRO_SUBPIXEL_ORDER_VBGR:CAIRO_SUBPIXEL_ORDER_DEFAULT);
    for(int i=0;i<4;i++){ ctx[i]=pango_font_map_create_context(m); pango_context_set_base_dir(ctx[i],PANGO_DIRECTION_LTR); pango_context_set_language(ctx[i],pango_language_get_default()); PangoFontDescription*d=pango_font_description_from_string(desc.c_str()); if(!(pango_font_description_get_set_fields(d)&PANGO_FONT_MASK_SIZE)) pango_font_description_set_size(d,10*PANGO_SCALE); pango_font_description_set_weight(d,i&1?PANGO_WEIGHT_BOLD:PANGO_WEIGHT_NORMAL); pango_font_description_set_style(d,i&2?PANGO_STYLE_ITALIC:PANGO_STYLE_NORMAL); pango_font_description_set_variant(d,PANGO_VARIANT_NORMAL); pango_font_description_set_stretch(d,PANGO_STRETCH_NORMAL); pango_font_description_set_gravity(d,PANGO_GRAVITY_SOUTH); pango_context_set_font_description(ctx[i],d); pango_font_description_free(d); pango_cairo_context_set_font_options(ctx[i],o); }
    cairo_font_options_destroy(o); PangoLayout*l=pango_layout_new(ctx[0]); pango_layout_set_text(l,"Ag0|",-1); baseline=PANGO_PIXELS_CEIL(pango_layout_get_baseline(l)); g_object_unref(l); }
  // coverage of every pixel of a symbol drawn over n cells, one byte per channel
  const Mask& glyph(int face,const std::vector<uint32_t>&seq,int n){ std::vector<uint32_t> k=seq; k.push_back(face); k.push_back(n); auto f=glyphs.find(k); if(f!=glyphs.end()) return f->second;
    Mask m; m.w=cw*n; m.h=ch; m.a.assign((size_t)m.w*m.h,0); cairo_format_t fo=aa=="none"?CAIRO_FORMAT_A1:aa=="gray"?CAIRO_FORMAT_A8:CAIRO_FORMAT_RGB24; cairo_surface_t*s=cairo_image_surface_create(fo,m.w,m.h); cairo_t*cr=cairo_create(s); pango_cairo_update_context(cr,ctx[face]); PangoLayout*l=pango_layout_new(ctx[face]); std::string u8; for(uint32_t c:seq){ char b[8]; int z=g_unichar_to_utf8(c,b); u8.append(b,z); } pango_layout_set_text(l,u8.data(),u8.size()); PangoLayoutLine*li=pango_layout_get_line_readonly(l,0); PangoRectangle r; pango_layout_line_get_pixel_extents(li,nullptr,&r); cairo_move_to(cr,-r.x,baseline); cairo_set_source_rgb(cr,1,1,1); pango_cairo_show_layout_line(cr,li); g_object_unref(l); cairo_destroy(cr); cairo_surface_flush(s);
    const uint8_t*d=cairo_image_surface_get_data(s); int st=cairo_image_surface_get_stride(s); for(int y=0;y<m.h;y++) for(int x=0;x<m.w;x++){ uint32_t v; const uint8_t*row=d+(size_t)y*st; if(fo==CAIRO_FORMAT_A1) v=(((const uint32_t*)row)[x/32]>>(x%32)&1)?0xffffff:0; else if(fo==CAIRO_FORMAT_A8) v=row[x]*0x10101u; else v=((const uint32_t*)row)[x]&0xffffff; m.a[(size_t)y*m.w+x]=v; }
    cairo_surface_destroy(s); return glyphs[k]=m; } };

static int dcb(struct tsm_screen*,uint64_t id,const uint32_t*ch,size_t len,unsigned width,unsigned x,unsigned y,const struct tsm_screen_attr*a,tsm_age_t,void*d){ Pic*p=(Pic*)d; if((int)x>=p->w||(int)y>=p->h) return 0; Cell&k=p->c[y*p->w+x]; k.w=width; k.a=from_attr(a); k.id=id; if(len) k.sym.assign(ch,ch+len); return 0; }
static Pic cells(struct W*w){ Pic p; p.w=tsm_screen_get_width(w->screen); p.h=tsm_screen_get_height(w->screen); p.c.resize((size_t)p.w*p.h); tsm_screen_draw(w->screen,dcb,&p); return p; }
static uint32_t rgb(int r,int g,int b){ return r<<16|g<<8|b; }
static int mixc(int f,int b,int a){ int t=f*a+b*(255-a); return (t+127)/255; }
static Img paint(Font&F,const Pic&p,int W,int H,uint32_t pad,std::string*what=nullptr){ Img im; im.w=W; im.h=H; im.p.assign((size_t)W*H,pad); int gw=p.w*F.cw,gh=p.h*F.ch; auto px=[&](int x,int y,uint32_t v){ if(x<W&&y<H&&x<gw&&y<gh) im.p[(size_t)y*W+x]=v; };
  for(int y=0;y<p.h;y++){ int cover=0; for(int x=0;x<p.w;x++){ const Cell&k=p.at(x,y); int n=k.w; bool text=k.sym.size(); if(!n){ if(x<cover) continue; n=1; text=false; } if(n>1) cover=x+n;
    uint32_t fg=rgb(k.a.fr,k.a.fg,k.a.fb),bg=rgb(k.a.br,k.a.bg,k.a.bb); if(k.a.inverse) std::swap(fg,bg); const Mask*m=text?&F.glyph(k.a.bold|k.a.italic<<1,k.sym,n):nullptr;
    for(int j=0;j<F.ch;j++) for(int i=0;i<F.cw*n;i++){ uint32_t v=bg; if(m){ uint32_t a=m->a[(size_t)j*m->w+i]; if(a) v=rgb(mixc(fg>>16,bg>>16,a>>16),mixc(fg>>8&255,bg>>8&255,a>>8&255),mixc(fg&255,bg&255,a&255)); } if(k.a.underline&&j>=F.ul0&&j<=F.ul1) v=fg; px(x*F.cw+i,y*F.ch+j,v); } } }
  return im; }
static bool near(uint32_t a,uint32_t b){ if((a&0xffffff)==(b&0xffffff)) return true; for(int s=0;s<24;s+=8) if(abs((int)(a>>s&255)-(int)(b>>s&255))>1) return false; return true; }
static Img frame(struct W*w,int W,int H){ Img im; im.w=W; im.h=H; im.p.assign((size_t)W*H,0xff7b11e9); w_draw(w,W,H,im.p.data()); return im; }
static uint32_t padding(struct W*w){ struct tsm_screen_attr a; tsm_vte_get_def_attr(w->vte,&a); return rgb(a.br,a.bg,a.bb); }

static std::map<std::string,Font*> fonts;
static const char* const SIZES[]={"Monospace 5","Monospace 7","DejaVu Sans Mono 9","Monospace 12","Monospace"};
static Font& font(const std::string&desc,const std::string&aa,const std::string&sub){ Font*&f=fonts[desc+"/"+aa+"/"+sub]; if(f) return *f; Font*n=new Font; n->desc=desc; n->aa=aa; n->sub=sub; n->open();
  // the cell size as the pty sees it
  struct W*w=w_new(); w_set_str(w,"font",desc.c_str()); w_set_str(w,"anti-aliasing",aa.c_str()); w_set_str(w,"subpixel-order",sub.c_str()); if(w_fork(w)<=0) fail("the widget does not start its child"); struct WPty*p=w_pty(w);
  for(int d=1;d<80&&!(n->cw&&n->ch);d++){ w_configure(w,d,d); if(p->cols>=2&&!n->cw) n->cw=d/2; if(p->rows>=2&&!n->ch) n->ch=d/2; } if(!n->cw||!n->ch) fail("font %s: no cell size: %d,%d columns,rows fit in 79 pixels",desc.c_str(),p->cols,p->rows);
  // and the rows of the line below underlined blanks
  w_configure(w,4*n->cw,n->ch); w_feed(w,"\x1b[?25l\x1b[4m ",9+3); Img im=frame(w,4*n->cw,n->ch); struct tsm_screen_attr a; tsm_vte_get_def_attr(w->vte,&a); for(int y=0;y<n->ch;y++){ int fgs=0; for(int x=0;x<n->cw;x++) fgs+=near(im.p[y*4*n->cw+x],rgb(a.fr,a.fg,a.fb)); if(fgs==n->cw){ if(n->ul0<0) n->ul0=y; if(n->ul1>=0&&n->ul1!=y-1) fail("font %s: an underlined blank has a broken line",desc.c_str()); n->ul1=y; } else if(fgs) fail("font %s: row %d of an underlined blank is drawn in %d of %d pixels",desc.c_str(),y,fgs,n->cw); }
  if(n->ul0<0) fail("font %s: an underlined blank has no line",desc.c_str()); if(n->ul0<n->baseline||n->ul1-n->ul0>=n->ch/4+1) fail("font %s: the underline covers rows %d..%d of a cell of height %d with its baseline at %d",desc.c_str(),n->ul0,n->ul1,n->ch,n->baseline);
  // and the colour that marks changed cells
  w_set_bool(w,"show-dirty",1); im=frame(w,4*n->cw,n->ch); n->mark=im.p[0]&0xffffff; if(near(n->mark,rgb(a.fr,a.fg,a.fb))||near(n->mark,rgb(a.br,a.bg,a.bb))) fail("font %s: changed cells are not highlighted",desc.c_str());
  w_free(w); w_ptys_clear(); f=n; return *n; }

void run_case(Case&c){ Tape&t=c.t; static const std::vector<std::string> aas={"gray","none","default","subpixel"},subs={"default","rgb","bgr","vrgb","vbgr"}; std::string desc=SIZES[t.u(5)],aa=aas[t.weighted({30,12,10,10})],sub=t.chance(60)?subs[t.u(5)]:"default"; 
  Font*F=&font(desc,aa,sub); long live=vt_live; struct W*w=w_new(); struct D{ struct W*w; ~D(){ if(w){ w_free(w); w_ptys_clear(); } } } guard{w}; int W=1,H=1; bool forked=false,dirty=false; int compared=0,since=0,frames=0; bool text=false,again=false; size_t steps=0; /* bounds the age */ Pic prev; 
  auto prop=[&](const char*p,const std::string&v){ c.mix(v); if(c.verbose) c.log("set %s = %s",p,v.c_str()); w_set_str(w,p,v.c_str()); };
  auto conf=[&](int x,int y){ c.mix(x); c.mix(y); if(c.verbose) c.log("configure %dx%d pixels (cells %dx%d)",x,y,F->cw,F->ch); W=x; H=y; w_configure(w,x,y); since=0; prev=Pic(); };
  auto feed=[&](const std::string&s){ c.mix(s); if(c.verbose) c.log("child writes \"%s\"",esc(s).c_str()); steps+=s.size(); w_feed(w,s.data(),s.size()); };
  auto size=[&](int&x,int&y){ if(t.chance(40)){ x=1+t.u(3*F->cw); y=1+t.u(2*F->ch); } else { x=1+t.u(16*F->cw); y=1+t.u(6*F->ch); if(t.chance(100)) x=x/F->cw*F->cw+!(x/F->cw); } };
  // show-dirty: every cell drawn because it changed has a border in one colour around it, no other has
  auto outlines=[&](Img&got,const Img&want,const Pic&p){ frames++; const uint32_t col=F->mark; int units=0,on=0; std::string first;
    for(int y=0;y<p.h;y++){ int cover=0; for(int x=0;x<p.w;x++){ const Cell&k=p.at(x,y); int n=k.w; bool orphan=!n; if(!n){ if(x<cover) continue; n=1; } bool over=x<cover; if(n>1) cover=x+n; for(int i=1;i<n&&x+i<p.w;i++) if(p.at(x+i,y).w) over=true;
      int x0=x*F->cw,y0=y*F->ch,x1=std::min({W,(x+n)*F->cw,p.w*F->cw})-1,y1=std::min({H,(y+1)*F->ch,p.h*F->ch})-1; if(x0>x1||y0>y1) continue; if(over||x+n>p.w){ for(int j=y0;j<=y1;j++) for(int i=x0;i<=x1;i++) got.p[(size_t)j*W+i]=want.p[(size_t)j*W+i]; continue; }
      int same=0,other=0; for(int j=y0;j<=y1;j++) for(int i=x0;i<=x1;i++) if(i==x0||i==x1||j==y0||j==y1){ uint32_t a=got.p[(size_t)j*W+i]&0xffffff,b=want.p[(size_t)j*W+i]; if(near(a,b)){ same+=!near(b,col); continue; } if(a!=col) fail("highlighted frame: the border of cell (%d,%d) has the colours %06x and %06x",x,y,a,col); other++; }
      bool mark=other>0; if(mark) for(int j=y0;j<=y1;j++) for(int i=x0;i<=x1;i++) if(i==x0||i==x1||j==y0||j==y1){ uint32_t&a=got.p[(size_t)j*W+i]; if((a&0xffffff)!=col) fail("highlighted frame (%dx%d pixels, cells of %dx%d): the border of cell (%d,%d) has a gap at pixel (%d,%d)",W,H,F->cw,F->ch,x,y,i,j); a=want.p[(size_t)j*W+i]; }
      bool must=prev.w!=p.w||prev.h!=p.h; if(!must){ const Cell&q=prev.at(x,y); must=q.sym!=k.sym||q.w!=k.w||!(q.a==k.a); } if(must&&!mark&&same) fail("highlighted frame: cell (%d,%d) changed and is not highlighted",x,y);
      if(!orphan){ units++; on+=mark; if(mark&&!must&&first.empty()) first=fmt("(%d,%d)",x,y); } } }
    if(again&&steps<220&&on&&on!=units) fail("highlighted frame: nothing changed since the last one, but cell %s is highlighted",first.c_str()); prev=p;
    for(int y=0;y<H;y++) for(int x=0;x<W;x++) if(!near(got.p[(size_t)y*W+x],want.p[(size_t)y*W+x])) fail("highlighted frame (%dx%d pixels, cells of %dx%d): pixel (%d,%d) is %06x, expected %06x",W,H,F->cw,F->ch,x,y,got.p[(size_t)y*W+x]&0xffffff,want.p[(size_t)y*W+x]); if(c.verbose) c.log("highlighted frame compared: %d of %d cells marked",on,units); };
  auto draw=[&](){ Img got=frame(w,W,H); uint32_t pad=padding(w); Img want; Pic p; if(!forked){ want.w=W; want.h=H; want.p.assign((size_t)W*H,pad); } else { p=cells(w); want=paint(*F,p,W,H,pad); if(dirty){ outlines(got,want,p); return; } prev=Pic(); }
    compared++; since++; if(since>=2) for(auto&k:p.c) if(k.sym.size()) text=true;
    for(int y=0;y<H;y++) for(int x=0;x<W;x++) if(!near(got.p[(size_t)y*W+x],want.p[(size_t)y*W+x])){ int cx=x/F->cw,cy=y/F->ch; std::string k="outside of all cells"; if(cx<p.w&&cy<p.h){ const Cell&q=p.at(cx,cy); k=fmt("in cell (%d,%d) [width %d, %zu characters from U+%X, %s]",cx,cy,q.w,q.sym.size(),q.sym.size()?q.sym[0]:0,q.a.str().c_str()); } fail("frame %d (%dx%d pixels, cells of %dx%d): pixel (%d,%d) %s is %06x, expected %06x",compared,W,H,F->cw,F->ch,x,y,k.c_str(),got.p[(size_t)y*W+x]&0xffffff,want.p[(size_t)y*W+x]&0xffffff); } 
    if(c.verbose) c.log("frame %d compared",compared); };
  auto dofork=[&](){ c.mix(77); if(c.verbose) c.log("fork"); if(w_fork(w)<=0) fail("the widget does not start its child"); forked=true; since=0; };
  prop("font",desc); prop("anti-aliasing",aa); prop("subpixel-order",sub); w_set_uint(w,"sb-size",t.u(12)); int x,y; size(x,y);
  if(t.chance(50)){ conf(x,y); draw(); dofork(); } else { dofork(); conf(x,y); } draw();
  auto burst=[&](){ feed(std::string(150+t.u(105),'\r')); };
  if(forked&&t.chance(100)){ burst(); draw(); }
  std::vector<uint32_t> ids; unsigned now=1000; const unsigned M=gen::M_ALL&~gen::M_PAL&~gen::M_QUERY; auto l=t.loop(4,c.thorough?60:30);
  while(t.more(l)){ steps+=8; int cols=std::max(1,W/F->cw),rows=std::max(1,H/F->ch);
    switch(t.weighted({70,20,14,12,12,12,4,2,2,14,3})){
      case 0: feed(gen::soup(t,cols,rows,M)); break;
      case 1: { // overwrite parts of wide characters and styled text
        std::string s=fmt("\x1b[%d;%dH",1+(int)t.u(rows),1+(int)t.u(cols)); static const std::vector<std::string> at={"1","3","1;3","4","7","0","31;42","38;5;200","0","4;7"}; int n=1+t.u(6); for(int i=0;i<n;i++){ if(t.chance(110)) s+="\x1b["+at[t.u(at.size())]+"m"; s+=t.of(std::vector<std::string>{"\u4e16","a","b","W","\u4e16"," ","\x1b[D","\u2588","\b","\u00e9","\x1b[X"}); } feed(s); break; }
      case 2: { // the cursor alone moves
        feed(t.chance(60)?t.of(std::vector<std::string>{"\x1b[?25l","\x1b[?25h","\x1b[?5h","\x1b[?5l"}):fmt("\x1b[%d;%dH",1+(int)t.u(rows),1+(int)t.u(cols))); break; }
      case 3: { int k=t.u(4); static const unsigned keys[]={0xff52,0xff54,0xff55,0xff56}; c.mix(k); if(c.verbose) c.log("shift+%s",k==0?"up":k==1?"down":k==2?"page up":"page down"); w_key(w,keys[k],1,1,keys[k],0,0); break; }
      case 4: { // a selection with the pointer
        double a=t.u(W),b=t.u(H); c.mix((uint64_t)a*1000+b); if(c.verbose) c.log("press at %g,%g",a,b); w_button(w,1+t.u(3),1,a,b,now+=200); int n=t.u(4); for(int i=0;i<n;i++){ a=t.u(W); b=t.u(H); if(c.verbose) c.log("pointer to %g,%g",a,b); w_motion(w,a,b); if(t.chance(60)) draw(); } if(t.chance(200)){ now+=t.chance(60)?10:300; if(c.verbose) c.log("release"); w_button(w,0,1,a,b,now); } break; }
      case 5: size(x,y); conf(x,y); break;
      case 6: { int k=t.u(3); if(k==0) desc=SIZES[t.u(5)]; else if(k==1) aa=aas[t.u(4)]; else sub=subs[t.u(5)]; long b=vt_live; Font*G=&font(desc,aa,sub); live+=vt_live-b; F=G; if(k==0) prop("font",desc); else if(k==1) prop("anti-aliasing",aa); else prop("subpixel-order",sub); since=0; prev=Pic(); break; }
      case 7: { dirty=!dirty; if(c.verbose) c.log("show-dirty %d",dirty); w_set_bool(w,"show-dirty",dirty); prev=Pic(); if(w_get_bool(w,"show-dirty")!=dirty) fail("show-dirty reads back differently"); draw(); if(dirty&&t.chance(100)){ again=true; draw(); again=false; } break; }
      case 8: { unsigned n=t.u(12); if(c.verbose) c.log("sb-size %u",n); w_set_uint(w,"sb-size",n); break; }
      case 10: burst(); break;
      default: { // combined symbols, straight into the screen
        int n=1+t.u(4); for(int i=0;i<n;i++){ uint32_t s; if(ids.size()&&t.chance(140)) s=ids[t.u(ids.size())]; else { s=g_append(w->screen,"ea\xe9O"[t.u(4)]&0xff,0x300+t.u(4)); if(t.chance(60)) s=g_append(w->screen,s,0x320+t.u(3)); ids.push_back(s); } A at=gen::attr(t,false); struct tsm_screen_attr a=to_attr(at); c.mix(s); if(c.verbose) c.log("write symbol %x %s",s,at.str().c_str()); tsm_screen_write(w->screen,s,&a); } } }
    if(w_err) fail("%s",w_errmsg); if(t.chance(130)) draw(); if(dirty&&t.chance(40)){ draw(); again=true; draw(); again=false; } if(dirty&&t.chance(50)){ dirty=false; if(c.verbose) c.log("show-dirty 0"); w_set_bool(w,"show-dirty",0); draw(); } }
  draw(); if(forked&&t.chance(40)){ conf(W,H); draw(); long b=vt_live; conf(W,H); draw(); if(vt_live!=b) fail("painting the same cells again keeps %ld more allocation(s)",vt_live-b); }
  if(compared>=3&&text) c.nontrivial(); if(text) c.label("text kept over frames"); c.label(aa=="none"?"one bit masks":aa=="gray"?"grey masks":"colour masks"); if(ids.size()) c.label("combined symbols");
  guard.w=nullptr; w_free(w); if(w_alive(w)) fail("the widget survives its last reference"); if(w_ptys_left()) fail("the widget leaves its pty behind"); w_ptys_clear(); if(w_err) fail("%s",w_errmsg); if(vt_live!=live) fail("%ld allocation(s) left behind",vt_live-live); }
