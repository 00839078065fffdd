from vf import *
ASSUMPTIONS = ['identifier lookup returns an entry of the table or -1', 'strings handed to the tables are terminated; libc memmove and strcpy do what they say (own versions proved in S01)',
    'table sizes reduced by their own configuration macros (STACK_SIZE 24, SYNTAX_STACK_MAX 40, MAX_IDENT_TABLE_LEN 300, MAX_MACRO_TABLE_LEN 300); the code uses them only through these macros']
AN = {'AddMacroExpansionChar': dict(nloops=1, entry='int cut_a = 0;', modset=['MacroTable', 'MacroTableLen'], loops={0: dict(cond='''({ VF_CUT(cut_a, MacroTableLen == gN && MacroTable[gN] >= 0 && MacroTable[gN] <= gEx, { MacroTable[gN] = vf_ndi(); }) 1; })''')})}
CPP = ['-DPATH_PREFIX="/usr/local"', '-DHOST_LINUX']
def src(small):
    return Src('smlrc.c', annots=AN, cpp=CPP + (['-DSYNTAX_STACK_MAX=40', '-DSTACK_SIZE=24', '-DMAX_IDENT_TABLE_LEN=300', '-DMAX_MACRO_TABLE_LEN=300'] if small else []), macros='(tok|Sym|Format|MAX_|STACK_|SYNTAX_|OPERATOR_|PREP_|PPACK_)\\w+', rename={'main': 'smlrc_main'}, rename_def={'error': 'real_error', 'warning': 'real_warning', 'FindIdent': 'real_FindIdent'},
        rename_in={f: {'memmove': 'stub_memmove', 'strcpy': 'stub_strcpy', 'strlen': 'stub_strlen'} for f in ('ins2', 'del', 'InsertSyntax2', 'DeleteSyntax', 'AddIdent', 'AddMacroIdent')},
        post=before('FindMacro', '#include <stddef.h>\nextern int gN, gEx;void *stub_memmove(void *, const void *, size_t); char *stub_strcpy(char *, const char *); size_t stub_strlen(const char *);\n'))
def units(work, tier):
    us = []
    for e, fs in (('h_stack', ['push2', 'ins2', 'del', 'pop2', 'stacktop']), ('h_opstack', ['pushop2', 'popop2', 'opstacktop']), ('h_syntax', ['PushSyntax2', 'InsertSyntax2', 'DeleteSyntax']),
                  ('h_ident', ['AddIdent']), ('h_macro', ['AddMacroIdent', 'AddMacroExpansionChar']), ('h_macend', ['AddMacroExpansionChar']), ('h_misc', ['AddCase', 'pushPrep', 'popPrep'])):
        us.append(Unit(e[2:], 'c08.c', [src(e != 'h_misc')], entry=e, bits=64, unwind=5, native_defs=['harness=' + e], functions=['smlrc.c:' + f for f in fs], checks=('bounds', 'pointer', 'div'), fuzz_ms=2000))
    A2 = {
     'GetIdent': dict(nloops=1, entry='int cut_a = 0;', modset=['p', 'TokenIdentName', 'TokenIdentNameLen'], loops={0: dict(cond="""({ VF_CUT(cut_a, TokenIdentNameLen == gC && gC >= 1 && gC <= MAX_ID && TokenIdentName[gC] == 0 && (gW >= gC || (TokenIdentName[gW] & 255) == gCh && ((gCh | 32) >= 'a' && (gCh | 32) <= 'z' || gCh == '_' || gW && gCh >= '0' && gCh <= '9')),
         { gC = TokenIdentNameLen = vf_ndi(); gCh = vf_ndi(); __CPROVER_havoc_object(TokenIdentName); CharQueue[0] = vf_ndi(); CharQueue[1] = vf_ndi(); CharQueue[2] = vf_ndi(); }) 1; })""")}),
     'GetString': dict(nloops=2, entry='int cut_a = 0;', modset=['p', 'chsz', 'TokenValueString', 'TokenStringLen', 'TokenStringSize', 'ch', 'i'], loops={0: dict(cond="""({ VF_CUT(cut_a, gC >= 0 && TokenStringLen == gC && TokenStringSize == gC && gC <= MAX_ST && TokenValueString[gC] == 0 && (gW >= gC || (TokenValueString[gW] & 255) == gCh),
         { gC = TokenStringLen = vf_ndi(); TokenStringSize = vf_ndu(); gCh = vf_ndi(); ch = vf_ndu(); __CPROVER_havoc_object(TokenValueString); CharQueue[0] = vf_ndi(); CharQueue[1] = vf_ndi(); CharQueue[2] = vf_ndi(); }) 1; })""")})}
    for e, fs, k in (('h_getident', ['GetIdent'], {}), ('h_getstring', ['GetString'], {}), ('h_reserve', ['Reserve4Expansion'], {})):
        f = fs[0]
        ri = {'GetString': {'GetCharValue': 'stub_GetCharValue', 'ShiftCharN': 'stub_SC'}, 'Reserve4Expansion': {'memmove': 'stub_memmove'}}
        us.append(Unit(e[2:], 'c08b.c', [Src('smlrc.c', cpp=CPP + ['-D__NO_CTYPE'], macros='(tok|Sym|MAX_)\\w+', rename={'main': 'smlrc_main'}, rename_def={'error': 'real_error', 'warning': 'real_warning', 'ShiftCharN': 'real_ShiftCharN', 'SkipSpace': 'real_SkipSpace'},
             annots={f: A2[f]} if f in A2 else {}, rename_in={f: ri[f]} if f in ri else {},
            post=before('FindMacro', '#include <stddef.h>\nvoid ShiftCharN(int); unsigned stub_GetCharValue(int); void stub_SC(int); void *stub_memmove(void *, const void *, size_t); static const int MAX_ID = sizeof TokenIdentName - 1, MAX_ST = sizeof TokenValueString - 1;\n'))],
            entry=e, bits=64, unwind=8, native_defs=['harness=' + e], functions=['smlrc.c:' + x for x in fs], checks=('bounds', 'pointer', 'div'), fuzz_ms=2000))
    return us
