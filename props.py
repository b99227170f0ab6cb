"""what decides each property: contracts (contracts/*.c), the real sources they are checked against, and the static cases"""
TTY = ['libtty/tty.c', 'libtty/charsets.c']
TTYN = TTY + ['libtty/wcwidth.c']
SMALL = [{'sx': 2, 'sy': 2}, {'sx': 4, 'sy': 2}, {'sx': 5, 'sy': 3}]

NAMES = ['libtty/files.c', 'libtty/formats.c', 'libstream/compress.c', 'libstream/prefix.c', 'libstream/stream.c']
REC = ['libtty/files.c', 'libtty/formats.c', 'libtty/asciicast.c', 'libtty/dosrecorder.c', 'libtty/tty.c', 'libtty/charsets.c', 'libtty/wcwidth.c',
       'libstream/prefix.c', 'libstream/compress.c', 'libstream/stream.c', 'libstream/url_file.c', 'libstream/url_tcp.c', 'libstream/url_telnet.c',
       'libstream/url_termcast.c', 'libstream/url_curl.c']
NAMEOPT = dict(nomerge_all=1, nomerge=['comp'], loops={'contract_strlen': 'unroll', 'contract_strncasecmp': 'unroll', 'contract_strcasecmp': 'unroll',
                                          'contract_strcmp': 'unroll', 'contract_strncmp': 'unroll', 'same': 'unroll', 'ends': 'unroll', 'comp': 'unroll'})
TELOPT = dict(nomerge_all=1, nomerge=['contract_recv', 'ref'], loops={n: 'unroll' for n in ('contract_recv', 'contract_write', 'contract_send')},
              states={'telnet': ['g_state', 'g_verb', 'g_sub']})
ZL = ['-lz', '-lbz2', '-llzma', '-lzstd', '-lcurl']

def real(kind, where):
    """undefined behaviour counts in the real code, not in the contracts"""
    return not where.startswith(('S_', 'L_', 'harness_', 'contract_', 'mk_tty', 'whole', 'step', 'put', 'control', 'rec_', 'spec'))


PROPS = {
    'T01': dict(title='Memory safety and the screen invariants', native_c=['tty_native.c'], native_src=TTYN, bdims=SMALL, want_ub=real, fuzz=2, jobs=[
        dict(harness='harness_safe', contract='tty_step.c', src=TTY, cases=list(range(93)) + list(range(94, 108)) + list(range(109, 126)) + list(range(141, 153)), opts=dict(nocontract=['@tty_scroll', '@tty_write_char'])),
    ]),
    'T02': dict(title='Double-width characters', native_c=['tty_native.c'], native_src=TTYN, bdims=SMALL, plimit=540, fuzz=2, jobs=[
        dict(harness='harness_step', contract='tty_step.c', src=TTY, cases=list(range(5)) + list(range(10, 16)) + [65, 66, 67, 83] +
             list(range(89, 93)) + list(range(94, 98)) + [102, 107] + list(range(109, 153)), weight={143: 9, 149: 8, 141: 7, 142: 7, 147: 7, 148: 7, 4: 5}),
        dict(harness='harness_step', contract='tty_step.c', src=TTY, cases=range(16, 31), w=1, opts=dict(nocontract=['@tty_write_char'])),
        dict(harness='harness_step', contract='tty_step.c', src=TTY, cases=[100, 101, 105, 106], w=6, opts=dict(nocontract=['@tty_scroll'])),
    ]),
    'T04': dict(title='Chunks do not matter', native_c=['tty_native.c'], native_src=TTYN, fuzz=20, jobs=[
        dict(harness='harness_chunk', contract='tty_chunk.c', src=['libtty/tty.c'], frame='tty_write', cases=[0]),
    ]),
    'T05': dict(title='Printing a character', native_c=['tty_native.c'], native_src=TTYN, bdims=SMALL, jobs=[
        dict(harness='harness_print', contract='tty_print.c', src=TTY, cases=[0, 1, 3, 4, 5, 6, 7, 9, 10, 11, 13]),
    ]),
    'T06': dict(title='Erasing', native_c=['tty_native.c'], native_src=TTYN, bdims=SMALL, jobs=[
        dict(harness='harness_erase', contract='tty_erase.c', src=TTY, cases=range(8)),
    ]),
    'T07': dict(title='Inserting and deleting characters', native_c=['tty_native.c'], native_src=TTYN, bdims=SMALL, jobs=[
        dict(harness='harness_insdel', contract='tty_insdel.c', src=TTY, cases=range(2)),
    ]),
    'T08': dict(title='Scrolling', native_c=['tty_native.c'], native_src=TTYN, bdims=SMALL, jobs=[
        dict(harness='harness_scroll', contract='tty_scroll.c', src=TTY, cases=[0, 1, 4, 5, 8, 9, 12, 13, 16, 17] + list(range(20, 28))),
    ]),
    'T09': dict(title='Moving the cursor', native_c=['tty_native.c'], native_src=TTYN, bdims=SMALL, jobs=[
        dict(harness='harness_cursor', contract='tty_cursor.c', src=TTY, cases=range(18), weight={17: 9}),
    ]),
    'T10': dict(title='Attributes and colours', native_c=['tty_native.c'], native_src=TTYN, bdims=SMALL, jobs=[
        dict(harness='harness_sgr', contract='tty_sgr.c', src=TTY, cases=[0]),
    ]),
    'T11': dict(title='Bytes decode to the right characters', native_c=['tty_native.c'], native_src=TTYN, bdims=SMALL, jobs=[
        dict(harness='harness_decode', contract='tty_decode.c', src=TTY, cases=range(17), weight={12: 9, 5: 5, 4: 5, 3: 5, 2: 5}),
    ]),
    'T12': dict(title='Modes, charsets, titles', native_c=['tty_native.c'], native_src=TTYN, bdims=SMALL, jobs=[
        dict(harness='harness_modes', contract='tty_modes.c', src=TTY, cases=list(range(19)) + [20]),
    ]),
    'T14': dict(title='Resizing', native_c=['tty_native.c'], native_src=TTYN, level='other', fuzz=3, jobs=[
        dict(harness='harness_resize', contract='tty_resize.c', src=TTY, cases=range(30), bounded=[{'sx': x, 'sy': y} for y in (1, 2, 3) for x in (2, 3, 4, 5)]),
    ], note='BOUNDED, not proved: tty_resize allocates the new screen with a computed size and copies row by row, which the loop rule does not reach; '
       'every loop is unrolled for old sizes 2..5 by 1..3 and new sizes 1..6 by 1..5, with any content, cursor, marks and modes. '
       'Sizes to 40 by 12 are run natively with random content, with the accounting of the store of marks.'),
    'T15': dict(title='A copy is an independent twin', native_c=['tty_native.c'], native_src=TTYN, bdims=SMALL, jobs=[
        dict(harness='harness_copy', contract='tty_copy.c', src=TTY, cases=range(8)),
    ]),
    'T16': dict(title='Formatted output', native_c=['tty_native.c'], native_src=TTYN, bdims=SMALL, jobs=[
        dict(harness='harness_printf', contract='tty_printf.c', src=TTY, cases=range(2)),
    ]),
    'T17': dict(title='Colours', jobs=[
        dict(harness='harness_colors', contract='colors.c', src=['libtty/colors.c'], cases=range(8)),
    ]),
    'T18': dict(title='Character widths', jobs=[
        dict(harness='harness_width', contract='width.c', src=['libtty/wcwidth.c'], cases=range(8)),
    ]),
    'R01': dict(title='Times add and subtract exactly', jobs=[
        dict(harness='harness_timeval', contract='timeval.c', src=['libtty/charsets.c'], cases=range(3)),
        dict(harness='harness_live', contract='live.c', src=['libtty/formats.c'], cases=range(1),
             native_src=['libtty/formats.c', 'libtty/asciicast.c', 'libtty/dosrecorder.c', 'libtty/tty.c', 'libtty/charsets.c', 'libtty/wcwidth.c'], libs=['-lz']),
    ]),
    'R05': dict(title='Telnet', want_ub=real, jobs=[
        dict(harness='harness_telnet', contract='telnet.c', src=['libstream/url_telnet.c'], cases=range(3), opts=TELOPT, native_src=REC,
             libs=ZL + ['-Wl,--wrap=recv,--wrap=send,--wrap=write,--wrap=close']),
    ], note='proved by induction over the reads, any number of them, for reads of one, two and three bytes of any content in every decoder state; longer reads (to the size of the buffer) are run natively only',
       assumptions=['a read returns one to three bytes, the end or an error; longer reads are covered by the native runs only', 'writes to the pipe are not short']),
    'R06': dict(title='Formats and compressors by name', bdims=[{'n': 3}, {'n': 9}], jobs=[
        dict(harness='harness_names', contract='names.c', src=NAMES, opts=NAMEOPT, cases=range(8), native_src=REC, libs=ZL),
        dict(harness='harness_names', contract='names.c', src=NAMES, opts=NAMEOPT, cases=range(8, 12), proof_only=True, functions=['open_stream']),
    ]),
}

NA = {}
