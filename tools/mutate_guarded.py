#!/usr/bin/env python3
"""mutate_guarded.py OUT [--n N] [--seed S] [--jobs J]

Like mutate.py (whose 'build' has to run first), but every change only takes
effect in some particular state of the terminal: statements become
'if (STATE) changed; else original;'. Finds combinations the generators reach
too rarely. Nothing registered in MANIFEST.json uses it."""
import sys,re,random,argparse
sys.path.insert(0,'/verif/tools')
import mutate as M
from concurrent.futures import ThreadPoolExecutor,as_completed
CON=['con->sb_pos','con->sel_active','(con->flags & TSM_SCREEN_ALTERNATE)','(con->flags & TSM_SCREEN_INSERT_MODE)','(con->flags & TSM_SCREEN_REL_ORIGIN)','(con->flags & TSM_SCREEN_HIDE_CURSOR)','(con->flags & TSM_SCREEN_INVERSE)','!(con->flags & TSM_SCREEN_AUTO_WRAP)','con->cursor_x >= con->size_x','con->cursor_y > con->margin_bottom','con->cursor_y < con->margin_top','con->margin_top > 0','con->size_x == 1','con->size_y == 1','con->size_x > 40','con->size_y > 40','(con->sb_max && con->sb_count >= con->sb_max)','con->line_num > con->size_y','con->sb_max == 1','(con->flags & TSM_SCREEN_FIXED_POS)','con->margin_bottom + 1 < con->size_y','con->sb_count > 5','con->def_attr.protect','con->sel_start.line','con->sel_end.y == SELECTION_TOP']
VTE=['vte->glt','vte->grt','vte->flags & TSM_VTE_FLAG_7BIT_MODE','vte->flags & TSM_VTE_FLAG_8BIT_MODE','vte->flags & TSM_VTE_FLAG_USE_C1','vte->flags & TSM_VTE_FLAG_KEYPAD_APPLICATION_MODE','vte->flags & TSM_VTE_FLAG_CURSOR_KEY_MODE','vte->flags & TSM_VTE_FLAG_LINE_FEED_NEW_LINE_MODE','!(vte->flags & TSM_VTE_FLAG_SEND_RECEIVE_MODE)','vte->flags & TSM_VTE_FLAG_KEYBOARD_ACTION_MODE','vte->flags & TSM_VTE_FLAG_ORIGIN_MODE','vte->flags & TSM_VTE_FLAG_NATIONAL_CHARSET_MODE','vte->csi_argc > 8','vte->csi_argc == 16','vte->mouse_mode','vte->mouse_mode == TSM_VTE_MOUSE_MODE_PIXEL','vte->mouse_event','vte->osc_len > 100','vte->palette_name','vte->custom_palette_storage','vte->cattr.fccode < 0','vte->cattr.protect','vte->cattr.bold','vte->gl == &vte->g2','vte->gl == &vte->g3','vte->gr == &vte->g0','vte->g0 != &tsm_vte_unicode_lower','vte->saved_state.origin_mode','!vte->saved_state.wrap_mode','vte->backspace_sends_delete','vte->csi_argv[0] > 100','vte->alt_cursor_x > 0','vte->state != STATE_GROUND']
VTE+=[g.replace('con->','vte->con->') for g in CON if 'sel_' not in g]
def scope(ls,n):
    for k in range(n,-1,-1):
        if ls[k].startswith('{'):
            sig=''
            j=k-1
            while j>=0 and ls[j].strip() and not ls[j].startswith('}'): sig=ls[j]+sig; j-=1
            if 'struct tsm_screen *con' in sig: return CON
            if 'struct tsm_vte *vte' in sig: return VTE
            return None
        if ls[k].startswith('}'): return None
        if re.match(r'^[a-z].*\) \{$',ls[k]):
            if 'struct tsm_screen *con' in ls[k]: return CON
            if 'struct tsm_vte *vte' in ls[k]: return VTE
            return None
    return None
def guarded(f,rng):
    ls=open(f'{M.R}/{f}').read().split('\n'); out=[]
    for (f,n,a,b) in M.mutants(f,rng):
        g=scope(ls,n)
        if not g: continue
        ind=re.match(r'^\s*',a)[0]
        m1=re.match(r'^\s+if \((.*)\)( \{)?$',a); m2=re.match(r'^\s+if \((.*)\)( \{)?$',b)
        if m1 and m2:
            for q in rng.sample(g,2): out.append((f,n,a,f'{ind}if (({q}) ? ({m2[1]}) : ({m1[1]})){m1[2] or ""}'))
        elif re.match(r'^\s+[^;]+;$',a) and not re.match(r'^\s+(return|struct|unsigned|int|bool|char|size_t|const|static|break|continue|case|default|else|for|while|uint|goto)\b',a) and a.count('(')==a.count(')') and not re.match(r'^\s*(struct|for|while)',a):
            for q in rng.sample(g,2): out.append((f,n,a,f'{ind}{{ if ({q}) {{ {b.strip()} }} else {{ {a.strip()} }} }}'))
    return out
def main():
    ap=argparse.ArgumentParser(); ap.add_argument('out'); ap.add_argument('--n',type=int,default=200); ap.add_argument('--seed',type=int,default=1); ap.add_argument('--jobs',type=int,default=6)
    a=ap.parse_args(); rng=random.Random(a.seed); ms=[]
    for f in M.SRC:
        if 'src/tsm' in f and 'charsets' not in f and 'unicode' not in f: ms+=guarded(f,rng)
    rng.shuffle(ms); ms=ms[:a.n]; out=open(a.out,'a'); cnt={}
    with ThreadPoolExecutor(a.jobs) as ex:
        for m,(r,t) in (x.result() for x in as_completed([ex.submit(lambda m=m:(m,M.evaluate(m))) for m in ms])):
            cnt[r]=cnt.get(r,0)+1; out.write('\t'.join([r,t.replace('\n',' | ').replace('\t',' ')[:160],f'{m[0]}:{m[1]+1}',m[2].strip(),m[3].strip()])+'\n'); out.flush()
    print(cnt)
if __name__=="__main__": main()
