#!/usr/bin/env python3
"""writes properties.jsonl from the list below"""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state: a['state'] = state
    if observe: a['observe_at'] = observe
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why, 'anchors': a})
T = ['libtty/tty.c', 'libtty/tty.h']

prop('T01', 'Terminal stays sound on any input',
  'Whatever bytes a terminal is fed, from whatever state it got into, it never reads or writes outside its own memory, never aborts, and never leaves the screen: the cursor stays within 0..width by 0..height-1, the saved cursor and the scrolling region stay inside the screen (the region never empty), and parsing goes on with the next byte.',
  ['inputs', 'histories'], 'every byte, in every parser state, with arbitrary parameters, cursor, region, attributes and screen contents, on every screen of 2..4096 columns and 1..4096 rows',
  'The scripted tests replay a few dozen fixed escape sequences on 20x5 and 80x25 screens; they cannot enumerate parameter values, positions and earlier histories, and none checks memory bounds.',
  T, [('byte loop and parser', 'tty_write'), ('region scrolling', 'tty_scroll'), ('clearing', 'tty_clear_region'), ('double-width repair', 'cjk_damage_left, cjk_damage_right')],
  state='struct tty', observe='tty_write, tty_reset, tty_resize')
prop('T02', 'Double-width characters are never left in half',
  'On screens at least two columns wide, after any input every double-width character occupies exactly two adjacent cells of one line, its left cell holding the character and its right cell the filler, both marked as double-width; no other cell is so marked or holds a filler, and a filler never carries combining marks.',
  ['inputs', 'histories'], 'every byte from every valid state (see T01), every screen size from two columns up; also resizing to every size',
  'Breaking a pair needs a particular edit at a particular alignment relative to an earlier wide character; the tests sample a handful.',
  T, [('printing', 'tty_write_char'), ('repair of cut pairs', 'cjk_damage_left, cjk_damage_right'), ('insert and delete', 'tty_write case @, case P'), ('resize', 'tty_resize')], state='cells of the screen')
prop('T03', 'Combining marks belong to their cell',
  'A combining character is attached, in order, to the character just left of the cursor (to the left half if that is double-width), at most four per cell, further ones being ignored; marks of any other cell never change because of it. Marks vanish exactly when their cell is overwritten, erased or dropped, and the store of marks never mixes chains of two cells, loops, or loses entries.',
  ['inputs', 'histories'], 'every history of additions and releases, any number of cells and marks',
  'The store is a shared pool with a free list; corruption shows only after long histories of adding and releasing marks across growth of the pool.',
  T, [('adding a mark', 'tty_add_comb'), ('releasing the marks of a cell', 'tty_kill_comb'), ('attaching at the cursor', 'tty_write_char')], state='pool of combining marks')
prop('T04', 'How input is cut into chunks does not matter',
  'Feeding a terminal the same bytes in one call or in any number of calls, cut anywhere, leads to the same screen, cursor, attributes, modes, title and listener events (flush notices aside).',
  ['inputs', 'schedules'], 'every byte string, every way of cutting it, cuts inside UTF-8 sequences, escape sequences and strings included',
  'The number of cuts is exponential; tests feed whole lines.', T, [('byte loop', 'tty_write')], state='parser and UTF-8 state')
prop('T05', 'Printing a character',
  'A printable character appears at the cursor with the current attributes, replaces what was there with its combining marks, and moves the cursor by its width; a double-width character overwritten in part turns its other half into a blank; every other cell stays. At the right edge it first moves to the next line, scrolling the region when it was on its last line, or, with wrapping off, is printed over the last columns; control codes without a width print nothing.',
  ['inputs', 'histories'], 'every character, cursor position, region, attribute, charset and screen content, every screen size from two columns up',
  'Edge columns, region borders, wide neighbours and modes multiply to far more cases than are scripted.', T + ['libtty/charsets.c'],
  [('printing', 'tty_write_char'), ('scrolling', 'tty_scroll')], state='screen, cursor')
prop('T06', 'Erasing touches exactly the range asked for',
  'Each erase request (to end, to start or all of the screen or line, a number of characters, form feed) turns exactly its range into blanks with the current attributes and without combining marks, and leaves every other cell alone except that a double-width character cut by the edge of the range becomes a blank. The cursor stays, except that form feed homes it.',
  ['inputs', 'histories'], 'every erase request with any parameter, cursor position, attribute and screen content, every screen of 2..4096 columns and 1..4096 rows',
  'Off-by-one errors at one column or row, or only with a wide character on the border, need exactly that position.', T,
  [('erase requests', 'tty_write case J, K, X, FF'), ('clearing', 'tty_clear_region')], state='screen')
prop('T07', 'Inserting and deleting characters in a line',
  'Inserting n characters shifts the rest of the line right by n, dropping what passes the right edge, and deleting n shifts it left; the n vacated cells are blanks with the current attributes, other lines are untouched, cut double-width characters become blanks, shifted cells keep their marks, and counts are clipped to the line.',
  ['inputs', 'histories'], 'every count, cursor position, line content and screen size',
  'Needs a particular combination of count, column and wide-character alignment.', T, [('insert', "tty_write case '@'"), ('delete', "tty_write case 'P'")], state='screen')
prop('T08', 'Scrolling, line feeds, inserting and deleting lines',
  'A line feed on the last line of the scrolling region, a reverse line feed on its first, and inserting or deleting lines inside it move exactly the lines of the region (from the cursor down for inserting and deleting) by the count, clipped, fill the vacated lines with blanks in the current attributes, and change no line outside; elsewhere line feeds only move the cursor within the screen, and inserting or deleting lines outside the region does nothing.',
  ['inputs', 'histories'], 'every region, cursor position, count and screen content, every screen size',
  'Region borders, clipped counts and positions outside the region are barely scripted.', T, [('scrolling', 'tty_scroll'), ('requests', 'tty_write case LF, VT, ESC D E M, L, M, r')], state='screen, scrolling region')
prop('T09', 'Moving the cursor',
  'Every cursor request (relative moves, absolute positions, backspace, carriage return, tab, setting the scrolling region, save and restore) puts the cursor where it asks, clipped to the screen, counts of zero or absent meaning one; only the tab changes cells: it blanks those it passes, up to the next multiple of eight or the right edge.',
  ['inputs', 'histories'], 'every request, parameter, starting position and screen size',
  'Clipping at four borders with arbitrary counts is sampled at two screen sizes.', T, [('cursor requests', 'tty_write')], state='cursor')
prop('T10', 'Colour and attribute requests',
  'An attribute request processes its parameters left to right, each changing exactly what it stands for (reset, bold, dim, italic, underline, blink, inverse, strike, their removals, 16-colour, bright, 256-colour and RGB foregrounds and backgrounds, defaults) and nothing else; unknown ones are skipped, extended colours whose parameters are missing are ignored, and the screen and cursor never change.',
  ['inputs'], 'every list of up to sixteen parameters of any values, from any current attribute',
  'Parameter lists are unbounded in combination: sub-parameters at the end of the list, and bits of neighbouring fields.', T, [('attribute requests', "tty_write case 'm'")], state='current attribute')
prop('T11', 'Bytes decode to the right characters',
  'In UTF-8 mode every well-formed sequence prints exactly its character, malformed input never prints a wrong one: overlong control codes, surrogates without partner, non-characters and values beyond Unicode give the replacement character, surrogate pairs are joined, byte order marks print nothing. In single-byte mode each byte prints its code page 437 character, and with the graphics set selected ASCII prints the VT100 line-drawing characters.',
  ['inputs'], 'every character, every malformed sequence, every decoder state', 'There are over a million characters and far more malformed sequences; tests use a few dozen.',
  T + ['libtty/charsets.c'], [('decoder', 'tty_write case ESnormal'), ('tables', 'charset_cp437, charset_vt100')], state='UTF-8 state')
prop('T12', 'Modes, charsets, titles, save and restore',
  'Each mode or charset request changes exactly its mode; saving and restoring keeps position, attributes and charsets; reset returns cursor, region, attributes, modes and graphics charsets to their power-on values and blanks the screen; unknown or malformed sequences are consumed without any effect on screen, cursor or modes. A string command with code 0 sets the title to exactly its text, however terminated, up to the length limit, and no string is lost, leaked or delivered twice.',
  ['inputs', 'histories'], 'every byte in every parser state, every history of string commands', 'State left over by one sequence shows only in a later one.', T,
  [('parser', 'tty_write'), ('string commands', 'osc'), ('charsets', 'set_charset'), ('reset', 'tty_reset')], state='modes, title')
prop('T13', 'Listeners see every change',
  'A client that applies only the reported events (characters, combining marks, clears, scrolls, cursor moves, resizes) to its own copy of the screen always has the terminal\'s cells, and each event is reported after the change with the right position, text, attributes and width.',
  ['inputs', 'histories'], 'every byte from every valid state', 'An unreported change shows only when the client never repaints that cell otherwise.', T, [('notifications', 'tty_write, tty_write_char, cjk_damage_left, tty_add_comb')], state='listener callbacks')
prop('T14', 'Resizing keeps what fits',
  'Resizing keeps every cell that lies within both the old and the new screen, except that a double-width character cut by the new right edge becomes a blank; new cells are blanks in the current attributes, marks of dropped cells are released, the region becomes the whole screen and both cursors are clipped into it. Input may resize only when allowed and only to a sane size.',
  ['inputs', 'histories'], 'every old and new size, content and cursor', 'Tests resize between a couple of fixed sizes.', T, [('resize', 'tty_resize'), ('request', "tty_write case 't'")], state='screen')
prop('T15', 'A copied terminal is an independent twin',
  'A copy has the same screen, marks, cursor, attributes, modes, title and parser state, reacts to further input exactly like the original, and shares nothing with it: feeding, resizing or freeing one never affects the other, and no listener of the original is called for the copy.',
  ['histories'], 'every terminal state, every later use of either twin', 'Sharing shows only when one twin is freed or grown after the copy.', T, [('copy', 'tty_copy'), ('free', 'tty_free')], state='struct tty')
prop('T16', 'Formatted output reaches the terminal unchanged',
  'Formatted output to a terminal has exactly the effect of writing the formatted text, whatever its length, an empty text included.',
  ['inputs'], 'every text length', 'Only texts beyond an internal buffer size take the other path; tests print short ones.', T, [('formatted output', 'tty_printf')])
prop('T17', 'Colour conversion',
  'Converting a colour between the default, 16-colour, 256-colour and RGB forms gives the same kind unchanged and the documented palette value when widening. Narrowing to 16 colours keeps the lit components (those more than 32 above half of the largest), is bright above 0xc0 and dark grey if all are lit and none is above 0x70; basic colours other than brown come back from RGB. Narrowing to 256 gives an entry of the palette, and colours of the cube and grey ramp come back.',
  ['inputs'], 'every 32-bit colour value and every target form', 'There are 2^26 colours for each of four targets.', ['libtty/colors.c'], [('conversion', 'tty_color_convert')])
prop('T18', 'Character widths',
  'The width function gives -1 for control codes, 0 for NUL and every combining or zero-width character of its documented tables, 2 for every wide character of its documented ranges and 1 for all others, for every code.',
  ['inputs'], 'every 32-bit code', 'A binary search over intervals fails only at particular codes.', ['libtty/wcwidth.c'], [('width', 'mk_wcwidth'), ('search', 'bisearch')])
prop('T19', 'Redrawing on another terminal reproduces the screen',
  'A terminal dumped or mirrored through the redraw facility onto a standard terminal shows, after every flush, the same characters, marks, attributes, cursor and modes as the source.',
  ['inputs', 'histories'], 'every screen, attribute and sequence of events', 'Attribute differences are sent as deltas, so an error depends on the pair of successive attributes.', ['libtty/vtredir.c'], [('mirror', 'vtvt_char, vtvt_attr, vtvt_cursor'), ('dump', 'vtvt_dump')])
prop('R01', 'Times add and subtract exactly',
  'Adding, subtracting and comparing recorded times is exact and gives normalised results whenever the operands are normalised, whatever their sign.',
  ['inputs'], 'all pairs of normalised times', 'Carries happen only at particular microsecond values.', ['libtty/ttyrec.h'], [('time arithmetic', 'tadd, tsub, tcmp')])
prop('R02', 'ttyrec files read back what was written',
  'Every frame written in the ttyrec format (plain, nethack and dosrecorder flavours as applicable) is read back with the same time, data and order, however large; truncated or corrupt files yield the frames before the damage and never overrun memory.',
  ['inputs', 'crash_points'], 'every sequence of frames of any length, every truncation point and byte corruption', 'Tests convert a couple of short recordings.', ['libtty/formats.c', 'libtty/ttyrec.h'], [('reader', 'play_ttyrec'), ('writer', 'record_ttyrec')])
prop('R03', 'The timeline shows the right moment',
  'Frames keep their order and exact data; looking up a time gives the last frame not after it; seeking to any time gives exactly the screen obtained by playing every frame up to it from the start; delays are capped as documented.',
  ['inputs', 'histories'], 'every recording, every time asked for, in any order', 'Snapshots are taken by volume of data, so an error needs a long recording and a particular seek.', ['libtty/timeline.c'], [('loading', 'ttyrec_load'), ('seeking', 'ttyrec_seek')])
prop('R04', 'asciicast files read back what was written',
  'Output and delays recorded in asciicast v2 read back exactly, whatever bytes the output has within valid UTF-8 and however it is split into writes; malformed files never overrun memory.',
  ['inputs'], 'every valid UTF-8 text, every split, every delay', 'Escaping and splitting multi-byte characters depend on the particular bytes.', ['libtty/asciicast.c'], [('reader', 'play_asciicast'), ('writer', 'record_asciicast')])
prop('R05', 'Telnet negotiation is stripped exactly',
  'Whatever a server sends, however cut into reads, the data delivered is the stream with telnet commands and negotiation removed and escaped bytes restored, nothing else is lost or added, and no memory is overrun. A subnegotiation longer than 64 bytes counts as unterminated: what follows is data.',
  ['inputs', 'schedules'], 'every byte stream and every way of cutting it', 'Commands cut by a read boundary occur only with particular timing.', ['libstream/url_telnet.c'], [('decoder', 'telnet')])
prop('R06', 'Formats and compressors are chosen by name',
  'A file name or URL gets the compression and format its suffix stands for, ignoring the compression suffix when choosing a format, and a name without a known suffix gets none.',
  ['inputs'], 'every file name', 'Name shapes (short names, repeated dots, suffixes equal to the name) are unbounded.', ['libtty/formats.c', 'libstream/compress.c'], [('choice by suffix', 'ttyrec_r_find_format, ttyrec_w_find_format, comp_from_ext')])

if __name__ == '__main__':
    with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['id']
            f.write(json.dumps(p) + '\n')
