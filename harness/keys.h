// Reference encoding of key presses and mouse events.
#pragma once
#include "script.h"
struct KeyEnc { bool handled=false; std::string bytes; };
inline KeyEnc ref_key(unsigned vf,bool bsdel,uint32_t keysym,uint32_t ascii,unsigned mods,uint32_t uni){
  const bool ctrl=mods&TSM_CONTROL_MASK, shift=mods&TSM_SHIFT_MASK, alt=mods&TSM_ALT_MASK, ckm=vf&TSM_VTE_FLAG_CURSOR_KEY_MODE, kpa=vf&TSM_VTE_FLAG_KEYPAD_APPLICATION_MODE, lnm=vf&TSM_VTE_FLAG_LINE_FEED_NEW_LINE_MODE;
  std::string o; bool hit=false; auto S=[&](const std::string&x){ o=x; hit=true; };
  if(ctrl){ uint32_t y=ascii?ascii:keysym; int code=-1;
    if(y>='a'&&y<='z') code=y-'a'+1; else if(y>='A'&&y<='Z') code=y-'A'+1;
    else if(y=='2'||y==' ') code=0; else if(y=='3'||y=='['||y=='{') code=27; else if(y=='4'||y=='\\'||y=='|') code=28; else if(y=='5'||y==']'||y=='}') code=29; else if(y=='6'||y=='`'||y=='~') code=30; else if(y=='7'||y=='/'||y=='?') code=31; else if(y=='8') code=127;
    if(code>=0) S(std::string(1,(char)code)); }
  if(!hit){ static const struct { uint32_t k; const char*s; } plain[]={{0xff09,"\t"},{0xff89,"\t"},{0xfe20,"\x1b[Z"},{0xff0a,"\n"},{0xff0b,"\v"},{0xff15,"\x15"},{0xff1b,"\x1b"},{0xff68,"\x1b[1~"},{0xff63,"\x1b[2~"},{0xffff,"\x1b[3~"},{0xff60,"\x1b[4~"},{0xff55,"\x1b[5~"},{0xff9a,"\x1b[5~"},{0xff56,"\x1b[6~"},{0xff9b,"\x1b[6~"},{0xff80," "}};
    for(auto&p:plain) if(p.k==keysym) S(p.s); }
  if(!hit){ static const struct { uint32_t k; char app,num; } kp[]={{0xff9e,'p','0'},{0xffb0,'p','0'},{0xffb1,'q','1'},{0xffb2,'r','2'},{0xffb3,'s','3'},{0xffb4,'t','4'},{0xffb5,'u','5'},{0xffb6,'v','6'},{0xffb7,'w','7'},{0xffb8,'x','8'},{0xffb9,'y','9'},{0xffad,'m','-'},{0xffac,'l',','},{0xff9f,'n','.'},{0xffae,'n','.'},{0xffbd,'j','/'},{0xffaf,'j','/'},{0xffaa,'o','*'},{0xffab,'k','+'}};
    for(auto&p:kp) if(p.k==keysym){ if(kpa) S(std::string("\x1bO")+p.app); else S(std::string(1,p.num)); } }
  if(!hit){ static const struct { uint32_t k,k2; char f; bool c5; } cur[]={{0xff52,0xff97,'A',true},{0xff54,0xff99,'B',true},{0xff53,0xff98,'C',true},{0xff51,0xff96,'D',true},{0xff50,0xff95,'H',false},{0xff57,0xff9c,'F',false}};
    for(auto&p:cur) if(p.k==keysym||p.k2==keysym){ if(ctrl&&p.c5) S(std::string("\x1b[1;5")+p.f); else S(std::string(ckm?"\x1bO":"\x1b[")+p.f); } }
  if(!hit&&keysym==0xff08) S(bsdel?"\x7f":"\b");
  if(!hit&&keysym==0xff8d&&kpa) S("\x1bOM");
  if(!hit&&(keysym==0xff0d||keysym==0xff8d)) S(lnm?"\r\n":"\r");
  if(!hit){ int f=0; if(keysym>=0xffbe&&keysym<=0xffd1) f=keysym-65469u; if(keysym>=0xff91&&keysym<=0xff94) f=keysym-65424u;
    static const int num[]={0,0,0,0,0,15,17,18,19,20,21,23,24,25,26,28,29,31,32,33,34};
    if(f>=1&&f<=10){ if(shift) S(fmt("\x1b[%d~",num[f+10])); else if(f<=4) S(std::string("\x1bO")+"PQRS"[f-1]); else S(fmt("\x1b[%d~",num[f])); }
    else if(f>10) S(shift?fmt("\x1b[%d;2~",num[f]):fmt("\x1b[%d~",num[f])); }
  if(!hit&&uni!=TSM_VTE_INVALID){ if(vf&TSM_VTE_FLAG_7BIT_MODE) S(std::string(1,uni>0x7f?'?':(char)uni)); else if(vf&TSM_VTE_FLAG_8BIT_MODE) S(std::string(1,uni>0xff?'?':(char)uni)); else S(ref_utf8(uni)); }
  KeyEnc r; r.handled=hit; if(hit) r.bytes=(alt?"\x1b":"")+o; return r; }

struct RefMouse { bool uncertain=false; unsigned lc=~0u,lr=~0u; 
  // returns true if reported; ev: 1 press 2 release 4 motion
  bool event(int mode,int event,unsigned cx,unsigned cy,unsigned px,unsigned py,unsigned button,unsigned ev,unsigned mods,std::string&out,bool&either){ out.clear(); either=false;
    bool motion=ev&4; bool rel=ev&2;
    if(motion&&(mode==9||event!=1003)) return false;
    unsigned code= button==4?64:button==5?65:button; 
    if(mode==9){ if(rel) code=3; unsigned b=(code|mods)+0x20, x=std::min(cx+0x21,0xffu), y=std::min(cy+0x21,0xffu); out=std::string("\x1b[M")+(char)b+(char)x+(char)y; return true; }
    if((mode!=1006&&mode!=1016)||!event) return false;
    if(motion){ code=35; if(mode==1006){ if(cx==lc&&cy==lr){ if(uncertain) either=true; else return false; } lc=cx; lr=cy; uncertain=false; } }
    code|=mods; out=mode==1006?fmt("\x1b[<%u;%u;%u%c",code,cx+1,cy+1,rel&&!motion?'m':'M'):fmt("\x1b[<%u;%u;%u%c",code,px,py,rel&&!motion?'m':'M'); return true; } };
