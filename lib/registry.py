from vlib import Unit
UNITS = []
LEVELS = {}
ASSUMPTIONS = {}
ASSUMPTIONS_ALL = []
NOTES = {}
NOT_APPLICABLE = {}
CLAIMED = ["P01", "P02", "P03", "P04", "P05", "P06", "P07", "P08", "P09", "P10", "P11", "P12", "P14", "P15", "P16", "P17", "P18", "P19", "P20", "P21", "P22"]
TRUSTED_ALWAYS = ['CBMC 6.11 (goto-cc, goto-instrument --dfcc, cbmc) and its SAT back end']


def U(*a, owners=1, **k):
    u = Unit(*a, **k)
    u.owners = owners
    UNITS.append(u)
    return u


KISSAT = ['--external-sat-solver', 'kissat']

U('load_int', 'load_int.c', ['P01', 'P10'], 'cyaml__read_value')
U('load_uint', 'load_int.c', ['P01', 'P10'], 'cyaml__read_value', defs=['-DV_UINT'])
U('load_bool', 'load_bool.c', ['P02', 'P10'], 'cyaml__read_value')
U('load_float', 'load_float.c', ['P04', 'P10'], 'cyaml__read_value')
U('load_string', 'load_string.c', ['P05', 'P10'], 'cyaml__read_value')

# ascending counted loops: for ([type] i = 0; i < N; i++)
UP = r'(?:(?:const )?\w+ )?(?P<i>\w+) = 0; (?P=i) (?:<|!=) (?P<n>[^;]+); (?:(?P=i)\+\+|\+\+(?P=i)|(?P=i) \+= 1u?)'

U('load_enum', 'load_enum.c', ['P02', 'P10', 'P21'], 'cyaml__read_value',
  stage={'load.c': dict(loops=[
      dict(fn='cyaml__read_enum', nth=0, header=UP,
           contract='__CPROVER_assigns($i) __CPROVER_loop_invariant($i <= g_count && $i <= g_first) __CPROVER_decreases(g_count - $i)',
           body='__CPROVER_assume(g_tab[$i].str == g.names + $i);'),
      dict(fn='cyaml__read_enum', nth=1, header=UP, body='__CPROVER_assume(g_tab[$i].str == g.names + $i);',
           contract='__CPROVER_assigns($i) __CPROVER_loop_invariant($i <= g_count) __CPROVER_decreases(g_count - $i)'),
  ])},
  fallback=dict(bound='name tables of up to 3 entries', unwind=9))

EXIT = r'!(?P<x>\w+)'
ACC = r'\buint64_t (\w+) = 0;'
ERRV = r'\bcyaml_err_t (\w+) = CYAML_OK;'
ACC_INV = ('__CPROVER_assigns($x, $e, $v, GHOST, g_first, *g_event, __CPROVER_object_whole(g_buf)) '
           '__CPROVER_loop_invariant($v == g.acc && !g.bad && !g.ev_err && !g.unexpected && g.done == $x '
           '&& g.mem_fails == __CPROVER_loop_entry(g.mem_fails) && g.mem_allocs == __CPROVER_loop_entry(g.mem_allocs) '
           '&& g.mem_frees == 0 && g.mem_last == __CPROVER_loop_entry(g.mem_last) && g.cb_calls == 0 '
           '&& g.mem_last_size == __CPROVER_loop_entry(g.mem_last_size) && g.mem_ctx == __CPROVER_loop_entry(g.mem_ctx) '
           '&& g.names == __CPROVER_loop_entry(g.names) && !g.expect_value)')
U('load_flags', 'load_flags.c', ['P03', 'P10', 'P21'], 'cyaml__read_value',
  stage={'load.c': dict(renames=['cyaml_get_next_event'], loops=[
      dict(fn='cyaml__set_flag', nth=0, header=UP,
           contract='__CPROVER_assigns($i) __CPROVER_loop_invariant($i <= g_count && $i <= g_first) __CPROVER_decreases(g_count - $i)',
           body='__CPROVER_assume(g_tab[$i].str == g.names + $i);'),
      dict(fn='cyaml__read_flags_value', nth=0, header=EXIT, vars=dict(v=ACC, e=ERRV), contract=ACC_INV),
  ])},
  fallback=dict(bound='name tables of up to 3 entries, collections of up to 3 events', unwind=4))
U('load_bitfield', 'load_flags.c', ['P03', 'P10'], 'cyaml__read_value', defs=['-DV_BITFIELD'],
  stage={'load.c': dict(renames=['cyaml_get_next_event'], loops=[
      dict(fn='cyaml__get_bitval_index', nth=0, header=UP,
           contract='__CPROVER_assigns($i) __CPROVER_loop_invariant($i <= g_count && $i <= g_first) __CPROVER_decreases(g_count - $i)',
           body='__CPROVER_assume(g_tab[$i].name == g.names + $i && g_tab[$i].bits >= 1); '
                '__CPROVER_assume(IMP(g_all_valid, (unsigned)g_tab[$i].bits + g_tab[$i].offset <= 8 * (uint64_t)g_size));'),
      dict(fn='cyaml__read_bitfield_value', nth=0, header=EXIT, vars=dict(v=ACC, e=ERRV), contract=ACC_INV),
  ])},
  fallback=dict(bound='definition tables of up to 3 entries, collections of up to 3 events', unwind=4))

HEADF = 'v_head($f, $i), ($f = g_tab + $i)'
FIELDLOOP = r';? ?(?P<f>\w+)->key != NULL(?:; (?:(?P=f)\+\+|\+\+(?P=f)))?'
U('load_fieldidx', 'load_fieldidx.c', ['P08', 'P10', 'P21'], 'cyaml__get_mapping_field_idx',
  stage={'load.c': dict(loops=[
      dict(fn='cyaml__get_mapping_field_idx', nth=0, header=FIELDLOOP,
           vars=dict(i=r'\buint16_t (\w+) = 0;'), head=HEADF,
           contract='__CPROVER_assigns($f, $i) __CPROVER_loop_invariant($i <= g_count && $i <= g_first && $f == g_tab + $i) __CPROVER_decreases(g_count - $i)'),
  ])},
  fallback=dict(bound='mappings of up to 3 schema fields', unwind=5))
U('load_mapkey', 'load_mapkey.c', ['P08', 'P10'], 'cyaml__map_key',
  functions=['cyaml__map_key', 'cyaml__map_key_check_field',
             'cyaml__mapping_bitfieid_check', 'cyaml__mapping_bitfieid_set'],
  stage={'load.c': dict(renames=['cyaml_get_next_event', 'cyaml__consume_ignored_value',
                                 'cyaml__get_mapping_field_idx'])})
U('load_value', 'load_value.c', ['P06', 'P10'], 'cyaml__read_value',
  functions=['cyaml__read_value', 'cyaml__string_is_null_ptr', 'cyaml__validate_event_type_for_schema',
             'cyaml__data_handle_pointer', 'cyaml_data_write_pointer', 'cyaml__realloc'],
  stage={'load.c': dict(renames=['cyaml__read_scalar_value', 'cyaml__read_flags_value', 'cyaml__read_bitfield_value',
                                 'cyaml__stack_push', 'cyaml__consume_ignored_value'])})
for nm, df, uses in (('load_push_map', ['-DV_MAP'], ['P08', 'P10']), ('load_push_seq', ['-DV_SEQ'], ['P07', 'P10']),
                     ('load_push_doc', [], ['P12', 'P10'])):
    U(nm, 'load_push.c', uses, 'cyaml__stack_push', defs=df,
      functions=['cyaml__stack_push', 'cyaml__get_mapping_field_count', 'cyaml__mapping_bitfieid_create'],
      stage={'load.c': dict(renames=['cyaml__stack_ensure'], loops=[
          dict(fn='cyaml__get_mapping_field_count', nth=0, header=FIELDLOOP, vars=dict(t=r'\bcyaml__get_mapping_field_count\(\s*const cyaml_schema_field_t \*(\w+)\)'),
               head='v_head($f, g_walk), ($f = g_tab + g_walk)', body='g_walk++;',
               contract='__CPROVER_assigns($f, g_walk) __CPROVER_loop_invariant(g_walk <= g_count && $f == g_tab + g_walk) __CPROVER_decreases(g_count - g_walk)'),
      ])},
      fallback=dict(bound='mappings of up to 3 schema fields', unwind=5))
U('load_ensure', 'load_stack.c', ['P12', 'P10'], 'cyaml__stack_ensure')
U('load_pop', 'load_stack.c', ['P12', 'P10'], 'cyaml__stack_pop', defs=['-DV_POP'])
U('load_seqentry', 'load_seq.c', ['P07', 'P10'], 'cyaml__seq_entry', functions=['cyaml__seq_entry', 'cyaml__data_handle_pointer'], cbmc=KISSAT,
  stage={'load.c': dict(renames=['cyaml__read_value'], drop=['cyaml__read_scalar_value', 'cyaml__load_event'])})
U('load_seqend', 'load_seq.c', ['P07', 'P10', 'P12'], 'cyaml__seq_end', defs=['-DV_END'], stage={'load.c': dict(renames=['cyaml__stack_pop'], drop=['cyaml__read_scalar_value', 'cyaml__load_event'])})

for nm, d, fn, ren, lp in (
        ('free_value', '-DV_VALUE', 'cyaml__free_value', ['cyaml__free_mapping', 'cyaml__free_sequence'], []),
        ('free_sequence', '-DV_SEQ', 'cyaml__free_sequence', ['cyaml__free_value'], [
            dict(fn='cyaml__free_sequence', nth=0, header=UP, vars=dict(d=r'\b(?:size_t|uint64_t) (\w+)(?: =|;)'), body='g.vi = $i; g.vd = $d;',
                 contract='__CPROVER_assigns($i, GHOST) __CPROVER_loop_invariant($i <= g_tcount && g.visits == $i && g.frees == 0 && g.mem_ctx == __CPROVER_loop_entry(g.mem_ctx)) __CPROVER_decreases(g_tcount - $i)')]),
        ('free_mapping', '-DV_MAP', 'cyaml__free_mapping', ['cyaml__free_value'], [
            dict(fn='cyaml__free_mapping', nth=0, header=FIELDLOOP,
                 head='v_head($f, g_walk), ($f = g_tab + g_walk)', body='__CPROVER_assume(FIELD_OK(g_tab[g_walk])); g_walk++;',
                 contract='__CPROVER_assigns($f, g_walk, GHOST) __CPROVER_loop_invariant(g_walk <= g_count && $f == g_tab + g_walk && g.visits == (g_k < g_walk ? 1 : 0) && g.frees == 0 '
                          '&& g.names == __CPROVER_loop_entry(g.names) && g.mem_ctx == __CPROVER_loop_entry(g.mem_ctx)) __CPROVER_decreases(g_count - g_walk)')])):
    U(nm, 'u_free.c', ['P19'], fn, defs=[d], stage={'free.c': dict(renames=ren, loops=lp)}, cbmc=KISSAT if d == '-DV_SEQ' else [], each=r'free_value\.assertion',
      fallback=dict(bound='up to 3 entries', unwind=9) if lp else None)
U('free_top', 'u_free.c', ['P19', 'P20'], 'cyaml_free', defs=['-DV_TOP'], stage={'free.c': dict(renames=['cyaml__free_value'])})

CTX = r'\bcyaml_ctx_t (\w+) = \{'
TOPINV = ('__CPROVER_assigns(GHOST, $c, $e, __CPROVER_object_whole(g_blkA), __CPROVER_object_whole(g_blkB)) '
          '__CPROVER_loop_invariant($c.stack_idx >= 1 && !g.step_failed && $e == CYAML_OK && $c.config == &g_cfg && $c.stack == v_blk(g.blk) && $c.state == $c.stack && g.stack_live == $c.stack '
          '&& V_COPY_STATE(v_blk(g.blk)->state) && $c.seq_count == g_seq '
          + ''.join('&& g.%s == __CPROVER_loop_entry(g.%s) ' % (x, x) for x in 'mem_ctx pushes pops w_schema w_data w_copy w_state mem_last mem_last_size mem_allocs mem_fails freed_data freed_copy freed_stack'.split()) + ')')
TOPBODY = 'V_ASSERT("[P10,P18] the state stack is where it was left", $c.stack == v_blk(g.blk)); $c.stack = v_blk(g.blk); $c.state = $c.stack;'
TOPLOOPS = [dict(fn='cyaml_copy', nth=0, header=r'do (?P<c>\w+)\.stack_idx > 1', vars=dict(e=r'\bcyaml_err_t (\w+) = CYAML_OK;'), contract=TOPINV, body=TOPBODY),
            dict(fn='cyaml_copy', nth=1, header=r'(?P<c>\w+)\.stack_idx > 0', contract='__CPROVER_assigns($c.stack_idx, g.pops) __CPROVER_loop_invariant(1) __CPROVER_decreases($c.stack_idx)')]
for nm, d, fn, ren, lp in (
        ('copy_value', '-DV_CV', 'cyaml__clone_value', ['cyaml__stack_push', 'cyaml__stack_pop'], []),
        ('copy_seqvalue', '-DV_CV -DV_SEQVALS=CYAML_SEQUENCE', 'cyaml__clone_value', ['cyaml__stack_push', 'cyaml__stack_pop'], []),
        ('copy_fixvalue', '-DV_CV -DV_SEQVALS=CYAML_SEQUENCE_FIXED', 'cyaml__clone_value', ['cyaml__stack_push', 'cyaml__stack_pop'], []),
        ('copy_mapping', '-DV_CM', 'cyaml__clone_mapping', ['cyaml__clone_value', 'cyaml__stack_pop'], []),
        ('copy_sequence', '-DV_CS', 'cyaml__clone_sequence', ['cyaml__clone_value', 'cyaml__stack_pop'], []),
        ('copy_start', '-DV_START', 'cyaml__clone_start', ['cyaml__clone_value'], []),
        ('copy_push', '-DV_PUSH', 'cyaml__stack_push', ['cyaml__stack_ensure'], []),
        ('copy_top', '-DV_TOP', 'cyaml_copy', ['cyaml__stack_push', 'cyaml__stack_pop', 'cyaml__clone_start', 'cyaml__clone_mapping', 'cyaml__clone_sequence',
            'cyaml__backtrace', 'cyaml__get_data_len'], TOPLOOPS),
        ('copy_len', '-DV_LEN', 'cyaml__get_data_len', [], [])):
    U(nm, 'u_copy.c', ['P18', 'P10', 'P20'] if nm == 'copy_top' else ['P18', 'P10'], None if nm == 'copy_len' else fn, functions=[fn], defs=d.split(), stage={'copy.c': dict(renames=ren, loops=lp, drop=[] if lp else ['cyaml_copy'], auto=['cyaml_copy'])},
      fallback=dict(bound='up to 3 entries', unwind=9) if lp else None, cbmc=KISSAT if d in ('-DV_CS', '-DV_LEN') or 'V_CV' in d else [], each=r'postcondition\.3$' if d == '-DV_CS' else None)
U('copy_len_fixed', 'u_copy.c', ['P18', 'P10'], None, functions=['cyaml__get_data_len'], defs=['-DV_LEN', '-DV_LEN_FIXED'], cbmc=KISSAT,
  bounded='top-level sequences of fixed-length sequences with counts and sizes up to 64', stage={'copy.c': dict(drop=['cyaml_copy'])})
U('copy_sequence_fixed', 'u_copy.c', ['P18', 'P10'], 'cyaml__clone_sequence', defs=['-DV_CS', '-DV_FIXED_ENTRY'], cbmc=KISSAT,
  bounded='sequences of embedded fixed-length sequences with counts and sizes up to 64',
  stage={'copy.c': dict(renames=['cyaml__clone_value', 'cyaml__stack_pop'], drop=['cyaml_copy'])})
for d, own, src in (('COPY', 'P18', 'copy.c'), ('SAVE', 'P16', 'save.c')):
    more = ['P10'] if d == 'COPY' else ['P17']
    U(d.lower() + '_ensure', 'load_stack.c', [own] + more, 'cyaml__stack_ensure', defs=['-DV_' + d], stage={src: dict(drop=['cyaml_copy', 'cyaml__save', 'cyaml__write_scalar_value'])})
    U(d.lower() + '_pop', 'load_stack.c', [own] + more, 'cyaml__stack_pop', defs=['-DV_' + d, '-DV_POP'],
      stage={src: dict(renames=['cyaml__stack_pop_write_event'] if d == 'SAVE' else [], drop=['cyaml_copy', 'cyaml__save', 'cyaml__write_scalar_value'])})

SAVE_ALL = ['cyaml__save', 'cyaml_save_data', 'cyaml_save_file', 'cyaml__buffer_handler']
BITLOOP = r'(?:(?:const )?\w+ )?(?P<i>\w+) = 0; (?P=i) (?:<|!=) (?P<n>[^;]+); (?:(?P=i)\+\+|\+\+(?P=i)|(?P=i) \+= 1u?)'
KEEP = lambda *xs: ' && '.join('g.%s == __CPROVER_loop_entry(g.%s)' % (x, x) for x in xs)
for nm, d, fn, props, ren, lp in (
        ('save_value', '-DV_VALUE', 'cyaml__write_value', ['P14', 'P15', 'P16', 'P17'],
         ['cyaml__stack_push', 'cyaml__write_flags_value', 'cyaml__write_bitfield_value'], []),
        ('save_enum', '-DV_ENUM', 'cyaml__write_value', ['P15', 'P16', 'P17'], [], [
            dict(fn='cyaml__write_enum', nth=0, header=UP, body='__CPROVER_assume(g_tab[$i].str == g.names + $i && IMP($i < g_first, (uint64_t)g_tab[$i].val != g_num) && IMP($i == g_first, (uint64_t)g_tab[$i].val == g_num));',
                 contract='__CPROVER_assigns($i) __CPROVER_loop_invariant($i <= g_count && $i <= g_first) __CPROVER_decreases(g_count - $i)')]),
        ('save_flags', '-DV_FLAGS', 'cyaml__write_flags_value', ['P15', 'P16', 'P17'], [], [
            dict(fn='cyaml__emit_flags_sequence', nth=0, header=UP, vars=dict(v=r'\buint64_t (\w+)\)', e=r'\bcyaml_err_t (\w+);'), body='__CPROVER_assume(g_tab[$i].str == g.names + $i);',
                 contract='__CPROVER_assigns($i, $v, $e, GHOST) __CPROVER_loop_invariant($i <= g_count && $v == (g_num & ~g.acc) && (g.acc & ~g_num) == 0 && IMP(g.any, g.last < $i) && !g.rest && g.opens == 1 && g.closes == 0 && g.fmt_buf == NULL '
                          '&& g.emits >= 1 && g.inits >= 1 && !g.init_failed && !g.emit_failed && IMP(g_k < $i && FITS(g_k), ((uint64_t)g_tab[g_k].val & ~g.acc) == 0) && ' + KEEP('mem_ctx', 'names', 'value', 'mem_allocs') + ') __CPROVER_decreases(g_count - $i)')]),
        ('save_bitfield', '-DV_BITS', 'cyaml__write_bitfield_value', ['P15', 'P16', 'P17'], [], [
            dict(fn='cyaml__emit_bitfield_mapping', nth=0, header=UP, vars=dict(e=r'\bcyaml_err_t (\w+);'), body='__CPROVER_assume(g_bits[$i].name == g.names + $i && g_bits[$i].bits >= 1 && g_bits[$i].bits <= 64 && g_bits[$i].offset <= 63); g.bad = !DEF_OK($i);',
                 contract='__CPROVER_assigns($i, $e, GHOST) __CPROVER_loop_invariant($i <= g_count && IMP(g.any, g.last < $i) && g.opens == 1 && g.closes == 0 && !g.name_open && g.emits >= 1 && g.inits >= 1 '
                          '&& !g.init_failed && !g.emit_failed && IMP(g_k < $i, DEF_OK(g_k) && g.tracked == ((g_num & DEFMASK(g_k)) != 0)) && IMP(g_k >= $i, !g.tracked) && ' + KEEP('mem_ctx', 'names', 'value', 'mem_allocs') + ') __CPROVER_decreases(g_count - $i)')]),
        ('save_mapping', '-DV_MAP', 'cyaml__write_mapping', ['P16', 'P17'], ['cyaml__write_value', 'cyaml__stack_pop'], []),
        ('save_sequence', '-DV_SEQ', 'cyaml__write_sequence', ['P16'], ['cyaml__write_value', 'cyaml__stack_pop'], []),
        ('save_sequence_fixed', '-DV_SEQ -DV_FIXED_ENTRY', 'cyaml__write_sequence', ['P16'], ['cyaml__write_value', 'cyaml__stack_pop'], []),
        ('save_push', '-DV_PUSH', 'cyaml__stack_push', ['P16', 'P17'], ['cyaml__stack_ensure'], []),
        ('save_popev', '-DV_POPEV', 'cyaml__stack_pop_write_event', ['P16', 'P17'], [], []),
        ('save_start', '-DV_START', 'cyaml__write_start', ['P16'], ['cyaml__stack_push'], []),
        ('save_stream', '-DV_STREAM', 'cyaml__write_stream', ['P16'], ['cyaml__stack_push', 'cyaml__stack_pop'], []),
        ('save_doc', '-DV_DOC', 'cyaml__write_doc', ['P16'], ['cyaml__write_value', 'cyaml__stack_pop'], [])):
    U(nm, 'u_save.c', props, fn, defs=d.split(), stage={'save.c': dict(renames=ren, loops=lp, drop=SAVE_ALL)},
      fallback=dict(bound='tables of up to 3 entries', unwind=9) if lp else None, cbmc=KISSAT if 'V_SEQ' in d else [],
      each=r'postcondition\.3$' if d == '-DV_SEQ' else None,
      bounded='sequences of embedded fixed-length sequences with counts and sizes up to 64' if 'FIXED' in d else None)

STOPINV = ('__CPROVER_assigns(GHOST, $c, $e, __CPROVER_object_whole(g_blkA), __CPROVER_object_whole(g_blkB)) '
           '__CPROVER_loop_invariant($c.stack_idx >= 1 && !g.step_failed && $e == CYAML_OK && $c.config == &g_cfg && $c.emitter == &g_emitter && $c.stack == v_blk(g.blk) && $c.state == $c.stack && g.stack_live == $c.stack '
           '&& V_SAVE_STATE(v_blk(g.blk)->state) && $c.seq_count == g_seq && g.end_pop == false && ' + KEEP(*'mem_ctx pushes pops w_schema data_ok w_state mem_last mem_last_size mem_allocs mem_fails freed_stack flushes'.split()) + ')')
STOPBODY = 'V_ASSERT("[P16,P17] the state stack is where it was left", $c.stack == v_blk(g.blk)); $c.stack = v_blk(g.blk); $c.state = $c.stack;'
U('save_top', 'u_savetop.c', ['P16', 'P17', 'P20'], 'cyaml__save', defs=['-DV_TOP'], functions=['cyaml__save', 'cyaml__validate_save_params'],
  stage={'save.c': dict(renames=['cyaml__stack_push', 'cyaml__stack_pop', 'cyaml__write_start', 'cyaml__write_stream', 'cyaml__write_doc', 'cyaml__write_mapping', 'cyaml__write_sequence', 'cyaml__backtrace'],
      drop=['cyaml_save_data', 'cyaml_save_file', 'cyaml__buffer_handler', 'cyaml__write_scalar_value', 'cyaml__write_value'], auto=['cyaml__save'], loops=[
      dict(fn='cyaml__save', nth=0, header=r'do (?P<c>\w+)\.stack_idx > 1', vars=dict(e=r'\bcyaml_err_t (\w+) = CYAML_OK;'), contract=STOPINV, body=STOPBODY),
      dict(fn='cyaml__save', nth=1, header=r'(?P<c>\w+)\.stack_idx > 0', contract='__CPROVER_assigns($c.stack_idx, g.pops, g.end_pop) __CPROVER_loop_invariant(1) __CPROVER_decreases($c.stack_idx)')])},
  fallback=dict(bound='up to 3 steps', unwind=9))
SAVE_BODY = ['cyaml__write_scalar_value', 'cyaml__write_value']
U('save_buffer', 'u_savetop.c', ['P17'], 'cyaml__buffer_handler', defs=['-DV_BUFFER'], stage={'save.c': dict(drop=SAVE_BODY + ['cyaml__save', 'cyaml_save_data', 'cyaml_save_file'])})
U('save_data', 'u_savetop.c', ['P17', 'P16', 'P20'], 'cyaml_save_data', defs=['-DV_DATA'], stage={'save.c': dict(renames=['cyaml__save'], drop=SAVE_BODY)})
U('save_file', 'u_savetop.c', ['P17', 'P16', 'P20'], 'cyaml_save_file', defs=['-DV_FILE'], stage={'save.c': dict(renames=['cyaml__save'], drop=SAVE_BODY)})

HANDLERS = ['cyaml__stream_start', 'cyaml__doc_start', 'cyaml__stream_end', 'cyaml__doc_root_value', 'cyaml__doc_end', 'cyaml__map_key',
            'cyaml__map_end', 'cyaml__map_value', 'cyaml__seq_entry', 'cyaml__seq_end']
for nm, d, fn, props, ren in (
        ('load_sstart', '-DV_SSTART', 'cyaml__stream_start', ['P12'], ['cyaml__stack_push']),
        ('load_dstart', '-DV_DSTART', 'cyaml__doc_start', ['P12'], ['cyaml__stack_push', 'cyaml__stack_pop']),
        ('load_send', '-DV_SEND', 'cyaml__stream_end', ['P12'], ['cyaml__stack_pop']),
        ('load_dend', '-DV_DEND', 'cyaml__doc_end', ['P12'], ['cyaml__stack_pop']),
        ('load_root', '-DV_ROOT', 'cyaml__doc_root_value', ['P12'], ['cyaml__read_value']),
        ('load_mapval', '-DV_MAPVAL', 'cyaml__map_value', ['P08', 'P12'], ['cyaml__read_value']),
        ('load_mapend', '-DV_MAPEND', 'cyaml__map_end', ['P09', 'P12'], ['cyaml__mapping_bitfieid_validate', 'cyaml__stack_pop']),
        ('load_dispatch', '-DV_DISPATCH', 'cyaml__load_event', ['P12'], HANDLERS)):
    U(nm, 'u_steps.c', props, fn, defs=[d], owners=2 if nm == 'load_mapval' else 1,
      stage={'load.c': dict(renames=ren, drop=['cyaml__read_scalar_value', 'cyaml__load'] + (['cyaml__load_event'] if d != '-DV_DISPATCH' else []), auto=['cyaml__load_event'])})
LOADBODY = ['cyaml__read_scalar_value', 'cyaml__load', 'cyaml__load_event']
U('load_missing', 'u_defaults.c', ['P09', 'P10'], 'cyaml__mapping_bitfieid_validate', defs=['-DV_VALIDATE'],
  stage={'load.c': dict(renames=['cyaml__field_apply_default'], drop=LOADBODY, loops=[
      dict(fn='cyaml__mapping_bitfieid_validate', nth=0, header=UP,
           body='__CPROVER_assume(g_tab[$i].data_offset <= g_ssize && g_tab[$i].key == g.names + $i); g.witness = !SET($i) && !OPT($i);',
           contract='__CPROVER_assigns($i, GHOST) __CPROVER_loop_invariant($i <= g_count && !g.failed && g.tracked == (g_k < $i && !SET(g_k) ? 1 : 0) && IMP(g_k < $i, SET(g_k) || OPT(g_k)) && '
                    + KEEP('mem_ctx', 'names') + ') __CPROVER_decreases(g_count - $i)')])},
  fallback=dict(bound='mappings of up to 3 schema fields', unwind=9))
U('load_default', 'u_defaults.c', ['P09', 'P10'], 'cyaml__field_apply_default', defs=['-DV_APPLY'],
  stage={'load.c': dict(renames=['cyaml__field_scalar_apply_default'], drop=LOADBODY)})
U('load_defscalar', 'u_defaults.c', ['P09', 'P10'], 'cyaml__field_scalar_apply_default', defs=['-DV_SCALAR'], stage={'load.c': dict(drop=LOADBODY)})
U('load_defstring', 'u_defaults.c', ['P09', 'P10'], 'cyaml__field_scalar_apply_default', defs=['-DV_STRING'], stage={'load.c': dict(drop=LOADBODY)})

LTOPINV = ('__CPROVER_assigns(GHOST, $c, $e, $d, __CPROVER_object_whole(g_blkA), __CPROVER_object_whole(g_blkB)) '
           '__CPROVER_loop_invariant($c.stack_idx >= 1 && !g.step_failed && !g.ev_failed && !g.push_failed && !g.ev_fresh && $e == CYAML_OK && $c.config == &g_cfg && $c.parser == &g_parser '
           '&& $c.stack == v_blk(g.blk) && $c.state == $c.stack && g.stack_live == $c.stack && v_blk(g.blk)->state < CYAML_STATE__COUNT && IMP($c.stack_idx > 1, V_LOAD_STATE(v_blk(g.blk)->state)) '
           '&& $c.seq_count == g.count && $d == g.root && g.w_out == &$d && (g.root == NULL || g.root == g_client) && g.end_pop == false && '
           + KEEP(*'mem_ctx pushes pops w_schema w_state mem_last mem_last_size mem_allocs mem_fails freed_stack freed_data del_ev del_rec'.split()) + ')')
LTOPBODY = 'V_ASSERT("[P10,P12] the state stack is where it was left", $c.stack == v_blk(g.blk)); $c.stack = v_blk(g.blk); $c.state = $c.stack;'
U('load_top', 'u_loadtop.c', ['P10', 'P12', 'P20', 'P07'], 'cyaml__load', defs=['-DV_TOP'], functions=['cyaml__load', 'cyaml__validate_load_params'],
  stage={'load.c': dict(renames=['cyaml__stack_push', 'cyaml__stack_pop', 'cyaml_get_next_event', 'cyaml__load_event', 'cyaml__delete_yaml_event', 'cyaml__free_recording', 'cyaml__backtrace'],
      drop=['cyaml__read_scalar_value', 'cyaml_load_data', 'cyaml_load_file'], auto=['cyaml__load'], loops=[
      dict(fn='cyaml__load', nth=0, header=r'do (?P<c>\w+)\.state->state (?:> CYAML_STATE_START|!= CYAML_STATE_START)',
           vars=dict(e=r'\bcyaml_err_t (\w+) = CYAML_OK;', d=r'\bcyaml_data_t \*(\w+) = NULL;'), contract=LTOPINV, body=LTOPBODY),
      dict(fn='cyaml__load', nth=1, header=r'(?P<c>\w+)\.stack_idx > 0', contract='__CPROVER_assigns($c.stack_idx, g.pops, g.end_pop) __CPROVER_loop_invariant(IMP(g.end_pop, $c.stack_idx == 0) && IMP($c.stack_idx == 0, g.end_pop || g.push_failed)) __CPROVER_decreases($c.stack_idx)')])},
  fallback=dict(bound='up to 3 events', unwind=9))
U('load_data', 'u_loadtop.c', ['P10', 'P12', 'P20'], 'cyaml_load_data', defs=['-DV_DATA'], stage={'load.c': dict(renames=['cyaml__load'], drop=['cyaml__read_scalar_value', 'cyaml__load_event'])})
U('load_file', 'u_loadtop.c', ['P10', 'P12', 'P20'], 'cyaml_load_file', defs=['-DV_FILE'], stage={'load.c': dict(renames=['cyaml__load'], drop=['cyaml__read_scalar_value', 'cyaml__load_event'])})
U('load_ignored', 'u_loadtop.c', ['P08', 'P10'], 'cyaml__consume_ignored_value', defs=['-DV_IGN'],
  stage={'load.c': dict(renames=['cyaml_get_next_event'], drop=LOADBODY, loops=[
      dict(fn='cyaml__consume_ignored_value', nth=0, header=r'(?P<l>\w+)(?: > 0| != 0)?', vars=dict(c=r'\bcyaml_ctx_t \*(\w+)'),
           contract='__CPROVER_assigns(GHOST, $l, *$c) __CPROVER_loop_invariant($l == g.depth && !g.ev_failed && $c->config == &g_cfg && ' + KEEP('mem_ctx', 'mem_allocs') + ')')])},
  fallback=dict(bound='ignored values of up to 8 events', unwind=10))

EVB = ['cyaml__read_scalar_value', 'cyaml__load', 'cyaml__load_event']
RECV = dict(r=r'\bcyaml_event_record_t \*(\w+) =')
for nm, d, fn, ren, lp in (
        ('event_next', '-DV_NEXT', 'cyaml_get_next_event', ['cyaml__handle_alias', 'cyaml__handle_replay', 'cyaml__handle_record'], []),
        ('event_delete', '-DV_DEL', 'cyaml__delete_yaml_event', [], []),
        ('event_alias', '-DV_ALIAS', 'cyaml__handle_alias', [], [
            dict(fn='cyaml__handle_alias', nth=0, header=r'(?:(?:const )?\w+ )?(?P<i>\w+) = [^;]+complete_count; (?P=i) (?:> 0|!= 0); (?:(?P=i)--|--(?P=i))', vars=dict(a=r'\b(\w+) = 0;', **RECV),
                 body='INST($r->complete, $i - 1); V_ASSUME(IMP($i == g_last, $r->complete[$i - 1].len == g_alen)); g.k = $r->complete[$i - 1].len;',
                 contract='__CPROVER_assigns($i, g.k, $a) __CPROVER_loop_invariant($i <= g_cc && $i >= g_last && $a == 0) __CPROVER_decreases($i)')]),
        ('event_replay', '-DV_REPLAY', 'cyaml__handle_replay', [], []),
        ('event_anchor', '-DV_ANCHOR', 'cyaml__handle_anchor', ['cyaml__new_anchor'], []),
        ('event_newanchor', '-DV_NEWA', 'cyaml__new_anchor', [], []),
        ('event_record', '-DV_RECORD', 'cyaml__handle_record', ['cyaml__handle_anchor', 'cyaml__update_anchor_recordings'], []),
        ('event_update', '-DV_UPDATE', 'cyaml__update_anchor_recordings', ['cyaml__record_stack_push', 'cyaml__record_stack_pop'], []),
        ('event_push', '-DV_RPUSH', 'cyaml__record_stack_push', [], []),
        ('event_pop', '-DV_RPOP', 'cyaml__record_stack_pop', ['cyaml__new_anchor'], []),
        ('event_free', '-DV_FREE', 'cyaml__free_recording', [], [
            dict(fn='cyaml__free_recording', nth=0, header=UP, vars=RECV, body='V_ASSUME($r->progress[$i].name == (char *)g.names + $i);',
                 contract='__CPROVER_assigns($i, GHOST) __CPROVER_loop_invariant($i <= g_pc && g.fp == (g_k < $i ? 1 : 0) && g.fc == 0 && g.fd == 0 && g.farr[0] == 0 && ' + KEEP('mem_ctx', 'names', 'farr[1]', 'farr[2]', 'farr[3]', 'farr[4]') + ') __CPROVER_decreases(g_pc - $i)'),
            dict(fn='cyaml__free_recording', nth=1, header=UP, vars=RECV, body='V_ASSUME($r->complete[$i].name == g_alias + $i);',
                 contract='__CPROVER_assigns($i, GHOST) __CPROVER_loop_invariant($i <= g_cc && g.fc == (g_k < $i ? 1 : 0) && g.farr[1] == 0 && ' + KEEP('mem_ctx', 'names', 'fp', 'fd', 'farr[0]', 'farr[2]', 'farr[3]', 'farr[4]') + ') __CPROVER_decreases(g_cc - $i)'),
            dict(fn='cyaml__free_recording', nth=2, header=UP, vars=RECV,
                 contract='__CPROVER_assigns($i, GHOST) __CPROVER_loop_invariant($i <= g_dc && g.fd == (g_k < $i ? 1 : 0) && g.farr[2] == 0 && ' + KEEP('mem_ctx', 'names', 'fp', 'fc', 'farr[0]', 'farr[1]', 'farr[3]', 'farr[4]') + ') __CPROVER_decreases(g_dc - $i)')])):
    U(nm, 'u_events.c', ['P10', 'P11'] if nm in ('event_delete', 'event_free') else ['P11', 'P10'], fn, defs=[d], stage={'load.c': dict(renames=ren, drop=EVB, loops=lp)},
      fallback=dict(bound='recordings of up to 3 entries', unwind=9) if lp else None)

U('utf8_codepoint', 'u_utf8.c', ['P21'], 'cyaml_utf8_get_codepoint', defs=['-DV_CP'])
U('utf8_casecmp', 'u_utf8.c', ['P21'], 'cyaml_utf8_casecmp', defs=['-DV_CMP'], functions=['cyaml_utf8_casecmp', 'cyaml_utf8_to_lower', 'cyaml_utf8_char_len'],
  stage={'utf8.c': dict(renames=['cyaml_utf8_get_codepoint'], loops=[
      dict(fn='cyaml_utf8_casecmp', nth=0, header=r'true|1|;;', vars=dict(p=r'\bconst uint8_t \*(\w+) = str1\b', q=r'\bconst uint8_t \*(\w+) = str2\b'),
           body='V_ASSERT("comparison continues at the next characters", $p == g_s1 + g.o1 && $q == g_s2 + g.o2); $p = g_s1 + g.o1; $q = g_s2 + g.o2; v_iter($p, $q);',
           contract='__CPROVER_assigns($p, $q, GHOST) __CPROVER_loop_invariant(g.eq && $p == g_s1 + g.o1 && $q == g_s2 + g.o2 && g.o1 < g_n1 && g.o2 < g_n2) __CPROVER_decreases(g_n1 - g.o1)')])},
  fallback=dict(bound='strings of up to 5 bytes', unwind=9))
U('utf8_order', 'u_utf8.c', ['P21'], None, defs=['-DV_LEMMA'], functions=[])
U('text_rule', 'u_utf8.c', ['P21'], None, defs=['-DV_RULE'], functions=['cyaml__strcmp', 'cyaml__is_case_sensitive'])
for nm, d, fns, props in (
        ('strerror', '-DV_STRERR', ['cyaml_strerror'], ['P22']), ('log_call', '-DV_LOG', ['cyaml__log'], ['P22']),
        ('log_default', '-DV_STDLOG', ['cyaml_log'], ['P22']), ('log_names', '-DV_NAMES', ['cyaml__type_to_str', 'cyaml__state_to_str'], ['P22']),
        ('mem_default', '-DV_MEM', ['cyaml_mem'], ['P10'])):
    U(nm, 'u_util.c', props, None, defs=[d], functions=fns, unwind=50)
for d, src, drop in (('LOAD', 'load', ['cyaml__load', 'cyaml__read_scalar_value', 'cyaml__load_event', 'cyaml_load_data', 'cyaml_load_file']),
                     ('SAVE', 'save', ['cyaml__save', 'cyaml_save_data', 'cyaml_save_file', 'cyaml__buffer_handler', 'cyaml__write_scalar_value', 'cyaml__write_value']),
                     ('COPY', 'copy', ['cyaml_copy'])):
    U(src + '_backtrace', 'u_backtrace.c', ['P22'], None, defs=['-DV_' + d], functions=['cyaml__backtrace (%s.c)' % src],
      stage={src + '.c': dict(drop=drop, loops=[
          dict(fn='cyaml__backtrace', nth=0, header=r'(?:(?:const )?\w+ )?(?P<i>\w+) = (?P<n>[^;]+); (?P=i) (?:> 0|!= 0); (?:(?P=i)--|--(?P=i))', vars=dict(c=r'\bcyaml_ctx_t \*(\w+)'),
               body='v_bt($c->stack, $i);',
               contract='__CPROVER_assigns($i, GHOST, __CPROVER_object_whole(g_stack), __CPROVER_object_whole(g_tab)) __CPROVER_loop_invariant($i < g_depth) __CPROVER_decreases($i)')])},
      fallback=dict(bound='stacks of up to 3 states', unwind=9))

# every text handed to a message is one: all the units whose functions log texts
LOG_TEXT_UNITS = ('event_next event_alias event_replay event_anchor event_pop event_push load_mapkey load_int load_uint load_string load_enum load_flags load_value load_ensure load_pop '
                  'load_missing load_default load_top load_dispatch save_value save_enum save_flags save_bitfield save_mapping save_push save_popev save_top copy_mapping copy_push copy_value copy_top').split()
for u in UNITS:
    if u.name in LOG_TEXT_UNITS:
        u.props.append('P22')
