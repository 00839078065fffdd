from vf import *

ASSUMPTIONS = [
    'sizes and lengths up to 2 MB (limit of the verifier\'s 32-bit object model, not of the induction) in the 32-bit object model; the 16-bit inline-assembly variants are not covered here',
    'ghost hypotheses such as "L is the index of the first NUL" are universally quantified preconditions; the loop heads '
    'assume only instances of them (VF_INST)',
]
TRUSTED = ['ghost-instance statements (VF_INST) woven at loop heads: each is an instance of a stated hypothesis']

S = 'srclib/'


def L(inv, assigns, dec=None, cond='', pre='', post=''):
    t = '__CPROVER_assigns(%s)\n' % assigns
    for i in inv:
        t += '__CPROVER_loop_invariant(%s)\n' % i
    if dec:
        t += '__CPROVER_decreases(%s)\n' % dec
    return dict(inv=t, pre=pre, post=post, cond=cond)


# contracts of the loops, written over the ghost values of the harness (str.c)
AN = {
 'strlen': {0: L(['SO(s,gS1) && SO(str,gS1) && PO(str)==0', 'PO(s)<=gL1'], 's', 'gL1-PO(s)', 'vf_inst(NZ1(PO(s)))')},
 'memchr': {0: L(['SO(s,gS1) && PO(s)+n==gN && n<=gN', 'PO(s)<=gR', 'c==(char)gC'], 's,n', 'n', 'vf_inst(PO(s)-1+1>=gR || gS1[PO(s)]!=(char)gC)')},
 'memcmp': {0: L(['SO(p1,gS1)&&SO(p2,gS2)&&PO(p1)==PO(p2)&&PO(p1)+n==gN&&n>0&&n<=gN', 'PO(p1)<=gR'], 'p1,p2,n', 'n',
                 pre='vf_inst(PO(p1)>=gR || ((unsigned char*)gS1)[PO(p1)]==((unsigned char*)gS2)[PO(p1)]);')},
 'memcpy': {0: L(['SO(p1,gS1)&&SO(p2,gS2)&&n<=gN&&PO(p1)==gO1+(gN-n)&&PO(p2)==gO2+(gN-n)',
                  'gK<gN-n ==> gS1[gO1+gK]==gV', 'OUT1(gM,gO1,gN) ==> gS1[gM]==gU', 'gS2[gO2+gK]==gV'],
                 'p1,p2,n,__CPROVER_object_whole(gS1)', 'n')},
 'memmove': {0: L(['SO(s,gS2)&&SO(d,gS1)&&n<=gN&&PO(s)==gO2+n&&PO(d)==gO1+n',
                   'gK>=n ==> gS1[gO1+gK]==gV', 'gK<n ==> gS2[gO2+gK]==gV', 'OUT1(gM,gO1,gN) ==> gS1[gM]==gU'],
                  's,d,n,__CPROVER_object_whole(gS1)', 'n'),
             1: L(['SO(s,gS2)&&SO(d,gS1)&&n<=gN&&PO(s)==gO2+(gN-n)&&PO(d)==gO1+(gN-n)',
                   'gK<gN-n ==> gS1[gO1+gK]==gV', 'gK>=gN-n ==> gS2[gO2+gK]==gV', 'OUT1(gM,gO1,gN) ==> gS1[gM]==gU'],
                  's,d,n,__CPROVER_object_whole(gS1)', 'n')},
 'memset': {0: L(['SO(p,gS1)&&n<=gN&&PO(p)==gO1+(gN-n)', 'gK<gN-n ==> gS1[gO1+gK]==(char)gC',
                  'OUT1(gM,gO1,gN) ==> gS1[gM]==gU'], 'p,n,__CPROVER_object_whole(gS1)', 'n')},
 'strcpy': {0: L(['SO(p,gS1)&&SO(src,gS2)&&PO(p)==PO(src)&&PO(p)<=gL2', 'gK<PO(p) ==> gS1[gK]==gV', 'gM>gL2 ==> gS1[gM]==gU'],
                 'p,src,__CPROVER_object_whole(gS1)', 'gL2+1-PO(p)', 'vf_inst(NZ2(PO(src)))')},
 'strcat': {0: L(['SO(s1,gS1)&&PO(s1)<=gL1'], 's1', 'gL1-PO(s1)', 'vf_inst(NZ1(PO(s1)))'),
            1: L(['SO(s1,gS1)&&SO(s2,gS2)&&PO(s2)<=gL2&&PO(s1)==gL1+PO(s2)',
                  'gK<PO(s2) ==> gS1[gL1+gK]==gV', '(gM<gL1||gM>gL1+gL2) ==> gS1[gM]==gU'],
                 's1,s2,__CPROVER_object_whole(gS1)', 'gL2+1-PO(s2)', 'vf_inst(NZ2(PO(s2)))')},
 'strncat': {0: L(['SO(s1,gS1)&&PO(s1)<=gL1'], 's1', 'gL1-PO(s1)', 'vf_inst(NZ1(PO(s1)))'),
             1: L(['SO(s1,gS1)&&SO(s2,gS2)&&PO(s2)<=gL2&&PO(s1)==gL1+PO(s2)&&n<=gN&&PO(s2)==gN-n',
                   'gK<PO(s2) ==> gS1[gL1+gK]==gV', '(gM<gL1||gM>gL1+gL2) ==> gS1[gM]==gU'],
                  's1,s2,n,c,__CPROVER_object_whole(gS1)', 'n', 'vf_inst(NZ2(PO(s2)))')},
 'strncpy': {0: L(['SO(s1,gS1)&&SO(s2,gS2)&&PO(s1)==PO(s2)&&n<=gN&&PO(s1)==gN-n&&PO(s1)<=gL2',
                   'gK<PO(s1) ==> gS1[gK]==gV', 'gM>=gN ==> gS1[gM]==gU'],
                  's1,s2,n,__CPROVER_object_whole(gS1)', 'n', 'vf_inst(NZ2(PO(s2)))'),
             1: L(['SO(s1,gS1)&&n<=gN&&PO(s1)==gN-n&&(n==0||PO(s1)>gL2)',
                   '(gK<PO(s1)&&gK<=gL2) ==> gS1[gK]==gV', '(gK<PO(s1)&&gK>gL2) ==> gS1[gK]==0', 'gM>=gN ==> gS1[gM]==gU'],
                  's1,n,__CPROVER_object_whole(gS1)', 'n')},
 'strcmp': {0: L(['SO(s1,gS1)&&SO(s2,gS2)&&PO(s1)==PO(s2)&&PO(s1)<=gR'], 's1,s2', 'gR-PO(s1)',
                 'vf_inst(PO(s1)>=gR||(gS1[PO(s1)]==gS2[PO(s1)]&&gS1[PO(s1)]!=0))')},
 'strncmp': {0: L(['SO(s1,gS1)&&SO(s2,gS2)&&PO(s1)==PO(s2)&&PO(s1)<=gR&&n>0&&n<=gN&&PO(s1)==gN-n'], 's1,s2,n', 'n',
                  pre='vf_inst(PO(s1)>=gR||(gS1[PO(s1)]==gS2[PO(s1)]&&gS1[PO(s1)]!=0));')},
 'strchr': {0: L(['SO(s,gS1)&&PO(s)<=gR&&c==(char)gC'], 's', 'gL1-PO(s)',
                 'vf_inst(PO(s)>=gR||(gS1[PO(s)]!=(char)gC&&gS1[PO(s)]!=0)), vf_inst(NZ1(PO(s)))')},
 'strrchr': {0: L(['SO(s,gS1)&&PO(s)<=gL1&&c==(char)gC', '(gR<PO(s)) ? (SO(res,gS1)&&PO(res)==gR) : (res==0||(SO(res,gS1)&&PO(res)<PO(s)))',
                   '(gR>gL1) ==> res==0'],
                  's,res', 'gL1-PO(s)', 'vf_inst(NZ1(PO(s))), vf_inst(gR>gL1 || PO(s)<=gR || gS1[PO(s)]!=(char)gC), vf_inst(gR<=gL1 || gS1[PO(s)]!=(char)gC)')},
 'strcspn': {0: L(['SO(s1,gS1)&&SO(s,gS1)&&PO(s)==0&&PO(s1)<=gR'], 's1,p,c,c2', 'gL1+1-PO(s1)', pre='vf_inst(NZ1(PO(s1)));'),
             1: L(['SO(p,gS2)&&PO(p)<=gL2&&SO(s1,gS1)&&PO(s1)>0&&PO(s1)-1<=gR&&c==gS1[PO(s1)-1]',
                   '(PO(s1)-1==gR&&gR<gL1) ==> PO(p)<=gW'], 'p,c2', 'gL2+1-PO(p)',
                  pre='vf_inst(PO(s1)-1>=gR||PO(p)>=gL2||gS1[PO(s1)-1]!=gS2[PO(p)]); vf_inst(NZ2(PO(p)));')},
 'strpbrk': {0: L(['SO(s1,gS1)&&PO(s1)<=gR'], 's1,c,c2', 'gL1+1-PO(s1)', 'vf_inst(NZ1(PO(s1)))'),
             1: L(['SO(p,gS2)&&PO(p)<=gL2&&SO(s1,gS1)&&PO(s1)>0&&PO(s1)-1<=gR&&c==gS1[PO(s1)-1]&&c!=0',
                   '(PO(s1)-1==gR&&gR<gL1) ==> PO(p)<=gW'], 'p,c2', 'gL2+1-PO(p)',
                  'vf_inst(NZ2(PO(p))), vf_inst(PO(s1)-1>=gR||PO(p)>=gL2||gS1[PO(s1)-1]!=gS2[PO(p)])')},

}

# functions whose outer loop is a label and goto: cut points instead of loop contracts
CUT = {
 'strspn': dict(modset=['s', 's1', 'p', 'c', 'c2'], entry='int cut_a = 0, cut_b = 0;', nloops=1,
   labels={'lskip': 'cut_b = 0; VF_CUT(cut_a, SO(s1,gS1)&&PO(s1)<=gR&&SO(s,gS1)&&PO(s)==0&&s2==gS2, { s1 = gS1 + vf_ndu(); c = vf_ndi(); c2 = vf_ndi(); p = gS2; }) '
            'vf_inst(PO(s1)>=gR || SETIN(PO(s1))); vf_inst(NZ1(PO(s1)));'},
   loops={0: dict(cond='({VF_CUT(cut_b, SO(p,gS2)&&PO(p)<=gL2&&(PO(s1)-1>=gR||PO(p)<=gT[PO(s1)-1]), { p = gS2 + vf_ndu(); c2 = vf_ndi(); }) '
                  'vf_inst(NZ2(PO(p))); vf_inst(PO(s1)-1!=gR||PO(p)>=gL2||gS1[PO(s1)-1]!=gS2[PO(p)]); 1;})')}),
 'strtok': dict(modset=['s', 'p', 'c', 'c2', 'res', 'sc___strtoklast', '__strtoklast'], entry='int cut_a = 0, cut_b = 0, cut_c = 0, cut_d = 0;', nloops=3,
   labels={'lskip_delims': 'cut_b = 0; VF_CUT(cut_a, SO(s,gS1)&&PO(s)>=gO1&&PO(s)<=gB&&gS1[gM]==gU&&delims==gS2, { s = gS1 + vf_ndu(); c = vf_ndi(); c2 = vf_ndi(); p = gS2; }) '
            'vf_inst(PO(s)>=gB || SETIN(PO(s))); vf_inst(NZ1(PO(s)));'},
   loops={0: dict(cond='({VF_CUT(cut_b, SO(p,gS2)&&PO(p)<=gL2&&(PO(s)-1>=gB||PO(p)<=gT[PO(s)-1]), { p = gS2 + vf_ndu(); c2 = vf_ndi(); }) '
                  'vf_inst(NZ2(PO(p))); vf_inst(PO(s)-1!=gB||PO(p)>=gL2||gS1[PO(s)-1]!=gS2[PO(p)]); 1;})'),
          1: dict(cond='({cut_d = 0; VF_CUT(cut_c, SO(s,gS1)&&PO(s)>gB&&PO(s)<=gR&&res==gS1+gB&&gB<gL1&&gS1[gM]==gU&&gS1[gR]==gX, '
                  '{ s = gS1 + vf_ndu(); c = vf_ndi(); c2 = vf_ndi(); p = gS2; }) vf_inst(NZ1(PO(s))); 1;})'),
          2: dict(cond='({VF_CUT(cut_d, SO(p,gS2)&&PO(p)<=gL2&&(PO(s)-1!=gR||gR>=gL1||PO(p)<=gW), { p = gS2 + vf_ndu(); c2 = vf_ndi(); }) '
                  'vf_inst(NZ2(PO(p))); vf_inst(PO(s)-1>=gR||PO(p)>=gL2||gS1[PO(s)-1]!=gS2[PO(p)]); 1;})')}),
}


def src(fn):
    a = {fn: CUT[fn]} if fn in CUT else {fn: dict(loops=AN[fn], nloops=len(AN[fn]))}
    return Src(S + fn + '.c', annots=a, rename={fn: 'sc_' + fn, '__strtoklast': 'sc___strtoklast'})


def units(work, tier):
    us = []
    for fn in list(AN) + list(CUT):
        us.append(Unit(fn, 'str.c', [src(fn)], entry='h_' + fn, defs=['F_' + fn], kind='plain' if fn in CUT else 'dfcc',
                       unwind=4 if fn in CUT else None, timeout=300, slow=fn in ('memcpy', 'memmove', 'strncat'),
                       bounded=[dict(unwind=9, text='buffers <= 6 bytes', timeout=150)],
                       functions=['srclib/%s.c:%s' % (fn, fn)], checks=('bounds', 'pointer')))
    return us
