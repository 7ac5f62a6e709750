"""The checks: harness modules, entry points, bounds."""
COMMON_ASSUMPTIONS = [
    'IR compiled from the current tree with opt-level 2 and overflow checks, panic = abort (a panic anywhere is a violation unless caught by the harness)',
    'HashMap/HashSet hashes are the constant 0 in the IR build (lookups are then decided by key equality only); iteration order is insertion order',
    'num-bigint is replaced by an arithmetic model over mathematical integers in the IR build; num-rational reduces fractions lazily there; the native replay build uses the real crates',
    'memory allocation never fails; stack depth, running time and memory are not bounded by the property',
]
MC = 'model_checking'
PROPS = {
    'C01': dict(
        mods=['ses', 'db', 'term', 'edit', 'c10', 'c01'], level=MC,
        technique='symbolic execution of the whole compiled program (LLVM IR) on symbolic lines, operands, settings, keys and windows; every reachable panic, overflow, division by zero and invalid access is a violation; with z3',
        entries=[
            dict(name='h_c01_chars3', bounds='every ASCII line of up to 3 characters, 2 radices, 2 precisions, fractional, commas, upper, with and without variables', reach=('result', 'error')),
            dict(name='h_c01_chars4', bounds='every ASCII line of 4 characters without ^', reach=('result', 'error')),
            dict(name='h_c01_chars5', bounds='every line of 5 characters out of `019.+-*/%()$_a ,`', reach=('result', 'error')),
            dict(name='h_c01_chars6', bounds='every line of 6 characters out of `09.-+(),`', reach=('result', 'error')),
            dict(name='h_c01_chars7', bounds='every line of 7 characters out of `9.-/()`', reach=('result', 'error')),
            dict(name='h_c01_unicode', bounds='every Unicode character in 5 places', reach=('result', 'error')),
            dict(name='h_c01_settings', bounds='12 lines in 5 radices, 6 output radices, precisions 0, 1, 2, 254, 255, extra precisions 0, 1, 255, fractional, commas, upper', reach=('result', 'error')),
            dict(name='h_c01_operators', bounds='+ - * / on all rationals of 64-bit numerators and 32-bit denominators of either sign', reach=('result', 'error')),
            dict(name='h_c01_modulus', bounds='% of any 64-bit integer by -16 to 16', reach=('result', 'error')),
            dict(name='h_c01_powers', bounds='10 bases with 15 exponents (roots up to degree 4), 3 trivial bases with 5 huge exponents', reach=('result', 'error')),
            dict(name='h_c01_power_digits', bounds='every base of 1 or 2 digits with every exponent from -9 to 9', reach=('result', 'error')),
            dict(name='h_c01_commands', bounds='20 command names, each with up to 2 arbitrary ASCII characters after it, with and without variables, then a calculation', reach=('result', 'error')),
            dict(name='h_c01_commands_db', bounds='4 commands with up to 2 arbitrary ASCII characters with saved data, then two sessions', reach=('result', 'error')),
            dict(name='h_c01_huge', bounds='numbers of 1 to 60 digits of either sign, two digits arbitrary, as arguments and operands', reach=('result', 'error')),
            dict(name='h_c01_session', bounds='every sequence of 3 lines out of 20, then a calculation', reach=('result', 'error')),
            dict(name='h_c01_keys', bounds='11 widths, both screens, lines of 0 to 18 letters, then every 2 keys, any characters and modifiers, 9 other events, resizes', reach=('went on', 'narrow', 'quit')),
            dict(name='h_c01_wide', bounds='widths up to 65535, both screens, every 2 keys out of 6 kinds', reach=('went on', 'narrow')),
            dict(name='h_c01_submitted', bounds='4 widths, both screens, lines of 0 to 2 printable characters, enter, up, any of 5 keys, enter', reach=('went on',)),
            dict(name='h_c01_deep', bounds='16 kinds of lines with 1, 50 or 300 repetitions and one arbitrary ASCII character', reach=('result', 'error')),
        ]),
    'C02': dict(
        mods=['c02'], level=MC,
        technique='symbolic execution of the compiled tokenizer and evaluator (LLVM IR) with z3',
        entries=[
            dict(name='h_c02_word3', bounds='every ASCII word of 1 to 3 characters, radix 2..16', reach=('number', 'rejected')),
            dict(name='h_c02_long10', bounds='21-digit decimal literals, all digit values, the point and an underscore at every place', reach=('number',)),
            dict(name='h_c02_long16', bounds='18-digit hexadecimal literals in mixed case, all digit values', reach=('number',)),
            dict(name='h_c02_long2', bounds='9-digit literals in radix 2, 3, 8, 11, 15', reach=('number',)),
            dict(name='h_c02_longer', bounds='literals of 33 to 130 digits in radix 2, 7, 10 and 16: any first, middle and last digit, three digits for the rest, the point at 6 places or none, underscores', reach=('number',)),
            dict(name='h_c02_word4', bounds='every ASCII word of 4 characters, radix 2..16', tiers=('thorough',)),
        ]),
    'C03': dict(
        mods=['c03', 'ses'], level=MC,
        technique='symbolic execution of the compiled tokenizer, parser and evaluator (LLVM IR) on symbolic token sequences, against a reference grammar, with z3',
        entries=[
            dict(name='h_c03_seq3', bounds='every sequence of 1 to 3 tokens out of all token kinds of the calculator', reach=('value', 'not derivable', 'no value')),
            dict(name='h_c03_seq4', bounds='every sequence of 4 tokens out of 16 kinds', reach=('value', 'not derivable', 'no value')),
            dict(name='h_c03_seq5', bounds='every sequence of 5 tokens out of 9 kinds', reach=('value', 'not derivable')),
            dict(name='h_c03_seq6', bounds='every sequence of 6 tokens out of 6 kinds', reach=('value', 'not derivable')),
            dict(name='h_c03_assign', bounds='every sequence of 5 tokens out of a number, a variable, =, -, ( and )', reach=('value', 'not derivable')),
            dict(name='h_c03_assign8', bounds='$a= and every sequence of 6 tokens out of a number, a variable, =, a comma, - and max', reach=('value', 'not derivable')),
            dict(name='h_c03_chain', bounds='every expression of 4 operands joined by any of 6 operators, each operand optionally negated, symbolic digits', reach=('value', 'no value')),
            dict(name='h_c03_groups', bounds='3 operands, any of 6 operators, every placement of one group, function calls', reach=('value', 'no value')),
            dict(name='h_c03_long', bounds='10, 17 or 40 operands: any operator out of 4 with any other one at two places, a minus sign at any of the first 9 operands', reach=('value', 'no value')),
            dict(name='h_c03_nested', bounds='4 to 33 nested groups or calls, opened first, closed last or both, any two operators, one closing parenthesis too many or too few', reach=('value', 'no value')),
        ]),
    'C04': dict(
        mods=['c04'], level=MC,
        technique='symbolic execution of the compiled parser and evaluator (LLVM IR) on symbolic rational operands, with z3 (integer arithmetic)',
        entries=[
            dict(name='h_c04_binary', bounds='+ - * / on every two rationals with 128-bit numerators and denominators (or whole), every sign, three settings', reach=('value', 'error')),
            dict(name='h_c04_chain', bounds='(a op b) op c on every three rationals with 64-bit numerators and denominators', reach=('value', 'error')),
            dict(name='h_c04_modulus', bounds='a % b, a = n/d with any 128-bit n and d up to 4, b = m/e with m up to 40, e up to 3, every sign', reach=('value', 'error')),
            dict(name='h_c04_power', bounds='every rational with a 64-bit numerator and denominator to the powers -9..9', reach=('value', 'error')),
            dict(name='h_c04_power_large', bounds='n/d with n from -3 to 3, d one of 1, 2, 10, to 19 exponents from 10 to 300 of either sign', reach=('value', 'error')),
            dict(name='h_c04_select', bounds='max and min of 1 to 3 rationals with 64-bit numerators, abs and unary minus of one', reach=('value',)),
            dict(name='h_c04_small', bounds='+ - * / % on all n/d, n from -12 to 12, d one of 1, 3, 10, three settings', reach=('value', 'error')),
            dict(name='h_c04_small_power', bounds='the same numbers to the powers -5..5', reach=('value', 'error')),
            dict(name='h_c04_small_select', bounds='max, min of three and abs of the difference of two such numbers', reach=('value',)),
            dict(name='h_c04_lines', bounds='typed lines: [-]ddddd.dd op dddd with all digits symbolic', reach=('value', 'error')),
        ]),
    'C05': dict(
        mods=['c05', 'ses'], level=MC,
        technique='symbolic execution of the compiled number formatter (LLVM IR) on symbolic rationals, with z3 (integer arithmetic)',
        entries=[
            dict(name='h_c05_dec', bounds='24-bit numerators over 19 denominators, precision 0..6, radix 10', reach=('exact', 'rounded')),
            dict(name='h_c05_radix', bounds='10-bit numerators over 8 denominators, precision 0..3, radices 2, 3, 7, 11, 12, 16', reach=('exact', 'rounded')),
            dict(name='h_c05_all', bounds='7-bit numerators over 4 denominators, precision 0..2, radices 4, 5, 6, 8, 9, 13, 14, 15', reach=('exact', 'rounded')),
            dict(name='h_c05_big', bounds='64-bit whole part with an 8-bit fraction', reach=('exact', 'rounded')),
            dict(name='h_c05_precise', bounds='precisions 30..255', reach=('exact', 'rounded')),
            dict(name='h_c05_precise_radix', bounds='7 precisions from 20 to 255 in radices 2, 3 and 16', reach=('exact', 'rounded')),
            dict(name='h_c05_long', bounds='the 16 numbers around a power of the radix with 9 to 100 digits, over 1 or 3, radices 5, 10, 16', reach=('exact', 'rounded')),
        ]),
    'C06': dict(
        mods=['c05', 'c06', 'ses'], level=MC,
        technique='symbolic execution of the compiled number formatter (LLVM IR) on symbolic rationals and settings, with z3 (integer arithmetic)',
        entries=[
            dict(name='h_c06_dec', bounds='40-bit numerators, decimal and fractional output, every combination of the settings', reach=('number', 'fraction')),
            dict(name='h_c06_hex', bounds='20-bit numerators, radices 16 and 11', reach=('number', 'fraction')),
            dict(name='h_c06_bin', bounds='radix 2', reach=('number', 'fraction')),
            dict(name='h_c06_long', bounds='the 8 numbers around a power of 2, 10 or 16 with 14 to 300 digits, whole or over 7', reach=('number', 'fraction')),
        ]),
    'C07': dict(
        mods=['c07'], level=MC,
        technique='symbolic execution of the compiled exponentiation code (LLVM IR), including its search and Newton loops, on symbolic operands; conditions over one byte decided over all its values, others with z3',
        entries=[
            dict(name='h_c07_root', bounds='square, cube and fourth roots of every integer -255 to 255; 0, 1, 2, 5 or 12 digits', reach=('root', 'error')),
            dict(name='h_c07_fraction', bounds='square and cube roots of n/d, n to 255, d one of 2, 3, 7, 10, 100, 1000; radix 2, 3, 10 or 16; 1 or 3 digits', reach=('root',)),
            dict(name='h_c07_window', bounds='square and cube roots of the 256 integers from 1000, 65408, 10^9 and 2^50; 0 or 3 digits', reach=('root',)),
            dict(name='h_c07_exponent', bounds='n and n/3 to the powers 3/2, 2/3, -1/2, -2/3, -3/2, 5/3, 3/4, n from -63 to 63; 2 digits', reach=('root', 'error')),
            dict(name='h_c07_exact', bounds='second to fifth roots, and their squares, of k^d, k from -255 to 255; 0 to 255 digits', reach=('exact',)),
            dict(name='h_c07_digits', bounds='square and cube roots of n from 0 to 31 and n/7, n to 15, either sign where odd; 30, 100, 200 and 255 digits', reach=('root',)),
            dict(name='h_c07_even', bounds='even roots up to the 8th of n, n/3 and n/1000, n negative with up to 64 bits', reach=('error',)),
        ]),
    'C08': dict(
        mods=['c08', 'ses', 'db'], level=MC,
        technique='symbolic execution of the compiled line evaluation and variable store (LLVM IR) on sequences of lines with symbolic names, digits and values, compared with a reference map by z3',
        entries=[
            dict(name='h_c08_one', bounds='one line out of 22 kinds over 4 names, results printed; before it up to 2 variables with any 16-bit values', reach=('assigned', 'refused', 'other')),
            dict(name='h_c08_two', bounds='two lines out of 22 kinds over 4 names; before them up to 2 variables', reach=('assigned', 'refused', 'other')),
            dict(name='h_c08_three', bounds='three lines out of 10 kinds over 2 names', reach=('assigned', 'refused', 'other')),
            dict(name='h_c08_four', bounds='four lines out of 5 kinds over 2 names', reach=('assigned', 'refused')),
            dict(name='h_c08_saved3', bounds='with saved data: every 3 steps out of 7 kinds of lines and a new session, over 2 names', reach=('assigned', 'purged', 'refused')),
            dict(name='h_c08_saved4', bounds='with saved data: every 4 steps out of an assignment, a use in another assignment, a purge and a new session, over 2 names', reach=('assigned', 'purged', 'refused')),
            dict(name='h_c08_names', bounds='every pair of names of 0 to 3 characters after the $, any non-blank ASCII characters that are no operators', reach=('same', 'different')),
            dict(name='h_c08_long_names', bounds='names of 8 to 1000 characters that are the same but for one arbitrary character at 3 places or one more at the end', reach=('same', 'different')),
            dict(name='h_c08_values', bounds='values n/d, n from -255 to 255, d one of 1, 3, 7, 1000, under 12 display settings', reach=('value',)),
        ]),
    'C09': dict(
        mods=['ses', 'db', 'c09'], level=MC,
        technique='symbolic execution of the compiled variable store and saved data code together with SQLite (LLVM IR of both) on a modelled file system, over symbolic sequences of lines and sessions with symbolic names and values, with z3',
        entries=[
            dict(name='h_c09_three', bounds='every sequence of 3 steps out of 15 kinds of lines over two variables (assignments of n/7, uses, purges, reloads, failing lines, capacities 1 to 3) and reopening; then a use in a later session', reach=('compared', 'evicted', 'reopened', 'used')),
            dict(name='h_c09_four', bounds='every sequence of 4 steps out of 8 kinds of lines and reopening', reach=('compared', 'evicted', 'reopened', 'used')),
            dict(name='h_c09_five', bounds='every sequence of 5 steps out of an assignment, a use, another line, /histcap 2 and reopening', reach=('compared', 'evicted', 'reopened', 'used')),
            dict(name='h_c09_values', bounds='every value of 5, 20, 60 or 200 digits, ddd/7, dddddd/1000, dd/12, dddd.375, of either sign', reach=('compared',)),
            dict(name='h_c09_names', bounds='every two names of 0 to 3 characters after the $', reach=('same', 'different')),
            dict(name='h_c09_long_names', bounds='two names of 16 to 1000 characters with one arbitrary character at 3 places', reach=('same', 'different')),
            dict(name='h_c09_six', bounds='every sequence of 6 steps out of an assignment, a use, another line, /histcap 2 and reopening', reach=('compared', 'evicted'), tiers=('thorough',)),
        ]),
    'C10': dict(
        mods=['ses', 'db', 'c10'], level=MC,
        technique='symbolic execution of the compiled history code together with SQLite (LLVM IR of both) on a modelled file system, over symbolic sequences of lines, capacities and sessions, with z3',
        entries=[
            dict(name='h_c10_three', bounds='every sequence of up to 3 steps out of 9 kinds of lines (results, errors, capacities 1 to 9, invalid capacities, an empty line) and reopening', reach=('compared', 'capacity', 'full', 'reopened')),
            dict(name='h_c10_five', bounds='every sequence of 5 steps out of a line, an invalid capacity, capacities 1 to 3 and reopening', reach=('compared', 'capacity', 'full', 'reopened')),
            dict(name='h_c10_default', bounds='98 lines, then every sequence of 4 steps out of a line, /histcap 99, /histcap 2 and reopening', reach=('compared', 'full'), steps=200000000),
            dict(name='h_c10_two', bounds='two sessions at the same time, every interleaving of 4 lines or capacities 1 to 3', reach=('compared', 'capacity')),
            dict(name='h_c10_text', bounds='two lines of 0 to 4 arbitrary ASCII characters', reach=('compared',)),
            dict(name='h_c10_long', bounds='two lines of 10, 300, 5000 or 20000 characters, three of them arbitrary', reach=('compared',), steps=200000000),
            dict(name='h_c10_capacity', bounds='/histcap with every 1 to 3 characters out of digits, minus, blank and x', reach=('report', 'set', 'refused')),
            dict(name='h_c10_capacity_large', bounds='/histcap with 6 numbers around each of 2^15, 2^16, 2^31, 2^32, 2^53, 2^63, 2^64 and 10^13, with lines before and after', reach=('set', 'refused')),
            dict(name='h_c10_six', bounds='every sequence of 6 steps out of a line, capacities 1 to 3 and reopening', reach=('compared', 'capacity'), tiers=('thorough',)),
        ]),
    'C11': dict(
        mods=['ses', 'db', 'c10', 'c11'], level=MC,
        technique='symbolic execution of the compiled history code together with SQLite (LLVM IR of both) on a modelled file system with a symbolic crash or fault point, with z3',
        entries=[
            dict(name='h_c11_kill', bounds='6 lines, capacity 3 or 100, 0 to 2 lines before; killed before any one of the file system changes (symbolic index, all of them), then reopened and extended', reach=('killed', 'completed', 'the first state', 'the second state')),
            dict(name='h_c11_kill_twice', bounds='the same, and killed again before any change while recovering', reach=('killed', 'killed again', 'completed')),
            dict(name='h_c11_open', bounds='killed before any change while the first session creates the database', reach=('killed', 'completed')),
            dict(name='h_c11_open_error', bounds='any one file system call fails while the first session creates the database', reach=('opened', 'refused')),
            dict(name='h_c11_error', bounds='6 lines as for kill; any one write, sync, truncate, unlink or open fails with EIO', reach=('failed', 'completed', 'in spite of it')),
            dict(name='h_c11_full', bounds='6 lines as for kill; from any one write on the disk is full', reach=('failed', 'completed')),
            dict(name='h_c11_many', bounds='12 or 40 long lines, then /histcap 2 or a line of 9001 characters; killed before any change', reach=('killed', 'completed'), steps=200000000),
            dict(name='h_c11_many_error', bounds='the same, any one call fails', reach=('failed', 'completed'), steps=200000000),
            dict(name='h_c11_go_on', bounds='any one call fails and the session goes on with further lines', reach=('recorded',)),
        ]),
    'C12': dict(
        mods=['ses', 'db', 'term', 'edit', 'c10', 'c12'], level=MC,
        technique='symbolic execution of the compiled interactive loop and history code together with SQLite (LLVM IR) on symbolic lines and keys and a modelled terminal, compared after every key with a reference history, with z3',
        entries=[
            dict(name='h_c12_keys4', bounds='two submitted lines of 0 to 2 arbitrary letters, then every 4 keys out of up, down, enter, an arbitrary letter, backspace, delete, left, home', reach=('same session', 'all')),
            dict(name='h_c12_ends', bounds='a line of 1 to 3 arbitrary printable characters (no command), then every 3 keys out of up, down, enter', reach=('same session', 'all')),
            dict(name='h_c12_keys6', bounds='two empty lines, then every 6 keys out of up, down, enter, an arbitrary letter, backspace', reach=('same session', 'all')),
            dict(name='h_c12_walk', bounds='three lines of 0 to 1 letters, any walk of 7 ups and downs', reach=('same session', 'all')),
            dict(name='h_c12_edits', bounds='two lines, then every sequence of 5 ups or downs, each followed by an edit; then enter and up', reach=('same session', 'all')),
            dict(name='h_c12_sessions', bounds='two earlier sessions of 0 to 2 lines, 0 to 6 ups, then every 2 of down and a letter', reach=('same session', 'earlier session')),
            dict(name='h_c12_sessions_keys', bounds='an earlier session of 0 to 2 lines, every 5 keys out of up, down, enter, a letter', reach=('same session', 'earlier session')),
            dict(name='h_c12_evicted', bounds='capacity 3: 0 to 2 ups and downs, a line or /histcap 1, then every 4 keys out of up, down, enter', reach=('same session', 'earlier session', 'evicted')),
            dict(name='h_c12_again', bounds='three sessions one after the other, every 3 keys in the second', reach=('same session', 'earlier session')),
            dict(name='h_c12_two', bounds='two sessions at the same time, every interleaving of 3 lines', reach=('two',)),
            dict(name='h_c12_keys5', bounds='two lines of 0 to 1 letters, then every 5 keys out of 8 kinds', reach=('same session', 'all'), tiers=('thorough',)),
            dict(name='h_c12_sessions_keys6', bounds='an earlier session of 0 to 2 lines, every 6 keys out of up, down, enter, a letter', reach=('same session', 'earlier session'), tiers=('thorough',)),
        ]),
    'C13': dict(
        mods=['ses', 'term', 'edit', 'c13'], level=MC,
        technique='symbolic execution of the compiled interactive loop (LLVM IR) on symbolic key events and a modelled terminal, compared after every key with a reference text buffer, with z3',
        entries=[
            dict(name='h_c13_keys3', bounds='every 3 keys from an empty line: any printable character, any character with any modifiers, the editing and cursor keys with any modifiers, 9 other events', reach=('edited', 'quit', 'pair', 'no pair')),
            dict(name='h_c13_keys5', bounds='every 5 keys out of characters, backspace, delete, left, right, home, end', reach=('edited',)),
            dict(name='h_c13_long', bounds='printable lines of 3 to 32 characters, then every 3 keys, any modifiers', reach=('edited',)),
            dict(name='h_c13_long4', bounds='printable lines of 4, 16 and 31 characters, then every 4 keys out of 9 kinds', reach=('edited',)),
            dict(name='h_c13_hundreds', bounds='lines of 99 to 300 characters, the cursor in the line, then every 2 keys out of 7 kinds', reach=('edited',)),
            dict(name='h_c13_submit', bounds='4 keys, enter, 1 key, enter: the lines shown and evaluated are the lines edited', reach=('submitted',)),
            dict(name='h_c13_keys4', bounds='every 4 keys from an empty line, kinds as for 3 keys', reach=('edited', 'quit'), tiers=('thorough',)),
            dict(name='h_c13_keys7', bounds='every 7 keys out of characters, backspace, delete, left, right, home, end', reach=('edited',), tiers=('thorough',)),
        ]),
    'C14': dict(
        mods=['ses', 'term', 'edit', 'c14'], level=MC,
        technique='symbolic execution of the compiled interactive loop (LLVM IR) on symbolic lines and a modelled terminal, compared with a stack-based matcher, with z3',
        entries=[
            dict(name='h_c14_short', bounds='every printable line of up to 3 characters, every cursor position', reach=('pair', 'no pair')),
            dict(name='h_c14_lines6', bounds='every line of 4 to 6 characters out of `()x`, every cursor position', reach=('pair', 'no pair')),
            dict(name='h_c14_lines8', bounds='every line of 8 parentheses, every cursor position', reach=('pair', 'no pair')),
            dict(name='h_c14_lines10', bounds='every line of 10 parentheses, every cursor position', reach=('pair', 'no pair')),
            dict(name='h_c14_alternate', bounds='every line of 5 characters out of `()x` in the alternate screen', reach=('pair', 'no pair')),
            dict(name='h_c14_lines12', bounds='every line of 12 parentheses, every cursor position', reach=('pair', 'no pair')),
            dict(name='h_c14_deep', bounds='nested, side by side and unmatched parentheses, 30 to 150 deep, 8 cursor positions', reach=('pair', 'no pair')),
            dict(name='h_c14_lines14', bounds='every line of 14 parentheses, every cursor position', reach=('pair', 'no pair'), tiers=('thorough',)),
        ]),
    'C15': dict(
        mods=['ses', 'term', 'edit', 'c15'], level=MC,
        technique='symbolic execution of the compiled interactive loop (LLVM IR) on symbolic keys, widths and resizes with a terminal emulator, comparing the screen after every event, with z3',
        entries=[
            dict(name='h_c15_scroll', bounds='12 widths from 0 to 20, printable lines of 0 to 33 characters, then every 3 keys out of 9 kinds', reach=('narrow', 'edited', 'all', 'left hidden', 'right hidden', 'both hidden')),
            dict(name='h_c15_walk', bounds='widths 5 to 12, printable lines of 0 to 14 characters, any walk left then right, then any of 6 keys', reach=('edited', 'left hidden', 'right hidden', 'both hidden')),
            dict(name='h_c15_resize', bounds='3 widths, 4 lengths, then every 3 events out of 5 keys and resizes to 0..12 columns', reach=('narrow', 'edited')),
            dict(name='h_c15_alternate', bounds='alternate screen, 10 widths from 0 to 20, printable lines of 0 to 17 characters, then every 3 keys out of 9 kinds', reach=('narrow', 'edited')),
            dict(name='h_c15_alternate_resize', bounds='alternate screen, 3 widths, 4 lengths, then every 3 events out of 5 keys and resizes to 0..12 columns', reach=('narrow', 'edited')),
            dict(name='h_c15_submit', bounds='5 widths, lines of 0 to 12 digits submitted, then one recalled', reach=('submitted', 'edited')),
            dict(name='h_c15_submit_alternate', bounds='the same in the alternate screen', reach=('submitted', 'edited')),
            dict(name='h_c15_big', bounds='widths 80 to 300, lines of 75 to 300 characters, then every 2 keys', reach=('edited', 'left hidden', 'right hidden')),
            dict(name='h_c15_big_alternate', bounds='the same in the alternate screen', reach=('edited',)),
            dict(name='h_c15_bottom', bounds='windows of 3 to 5 rows, the first line on any row, 0 to 9 characters, 2 or 4 more keys and up to 2 submitted lines', reach=('submitted', 'edited')),
            dict(name='h_c15_bottom_alternate', bounds='the same in the alternate screen', reach=('submitted', 'edited')),
            dict(name='h_c15_scroll4', bounds='as scroll, with every 4 keys', reach=('edited',), tiers=('thorough',)),
            dict(name='h_c15_resize4', bounds='as resize, with every 4 events', reach=('edited',), tiers=('thorough',)),
        ]),
    'C16': dict(
        mods=['c16', 'c17', 'ses'], level=MC,
        technique='symbolic execution of the compiled command dispatcher, argument tokenizer and option parser (LLVM IR) on symbolic arguments and settings, with z3',
        entries=[
            dict(name='h_c16_bool', bounds='/fractional, /upper, /commas and aliases with every ASCII argument (no vertical tab) of up to 6 characters, every setting before', reach=('report', 'set', 'refused')),
            dict(name='h_c16_int', bounds='/radix, /converttoradix, /precision with every ASCII argument of up to 3 characters, every setting before', reach=('report', 'set', 'refused', 'odd literal')),
            dict(name='h_c16_none', bounds='/converttoradix with 4 to 6 characters out of none, x, blanks in any case', reach=('report', 'set', 'refused')),
            dict(name='h_c16_list4', bounds='the integer commands with 4 to 5 characters out of digits, blank, minus', reach=('report', 'set', 'refused')),
            dict(name='h_c16_list7', bounds='the integer commands with 6 to 7 characters out of digits, blank, minus', reach=('report', 'set', 'refused'), tiers=('thorough',)),
            dict(name='h_c16_bool8', bounds='the boolean commands with every ASCII argument of 7 and 8 characters', reach=('report', 'set', 'refused'), tiers=('thorough',)),
            dict(name='h_c16_numbers', bounds='one to three numbers of 1 to 3 digits of either sign', reach=('set', 'refused')),
            dict(name='h_c16_huge', bounds='one number of 4, 9, 19, 20 or 25 digits of either sign', reach=('set', 'refused')),
            dict(name='h_c16_history', bounds='every sequence of 3 lines out of 24 commands and calculations', reach=('set', 'refused')),
            dict(name='h_c16_cli', bounds='each numeric command line option with every number of 1 to 3 digits', reach=('set', 'refused')),
            dict(name='h_c16_cli_text', bounds='each numeric command line option with any two printable ASCII characters', reach=('set', 'refused')),
            dict(name='h_c16_flags', bounds='every combination of the options, long and short', reach=('set',)),
        ]),
    'C17': dict(
        mods=['c16', 'c17', 'ses'], level=MC,
        technique='symbolic execution of the compiled line splitter and command dispatcher (LLVM IR) on symbolic lines, with z3',
        entries=[
            dict(name='h_c17_names', bounds='every command name of 0 to 14 ASCII characters, 0 to 2 blanks before the slash, with and without an argument', reach=('known', 'unknown')),
            dict(name='h_c17_help', bounds='/help with every name of 1 to 14 ASCII characters', reach=('known', 'unknown')),
            dict(name='h_c17_lines', bounds='every ASCII line of up to 3 characters', reach=('command', 'other')),
            dict(name='h_c17_lines4', bounds='every ASCII line of 4 characters', reach=('command', 'other')),
            dict(name='h_c17_prefix', bounds='one or two arbitrary ASCII characters before a command', reach=('command', 'other')),
        ]),
    'C18': dict(
        mods=['c03', 'c18', 'ses'], level=MC,
        technique='symbolic execution of the compiled tokenizer, parser, evaluator and command code (LLVM IR) on symbolic lines and on tokens at symbolic positions, with z3',
        entries=[
            dict(name='h_c18_tokens3', bounds='every ASCII line of up to 3 characters', reach=('tokens', 'refused', 'command')),
            dict(name='h_c18_tokens4', bounds='every ASCII line of 4 characters', reach=('tokens', 'refused', 'command')),
            dict(name='h_c18_tokens7', bounds='every line of 7 characters out of `$5 +_.`', reach=('tokens', 'refused')),
            dict(name='h_c18_tokens5', bounds='every ASCII line of 5 characters', reach=('tokens', 'refused', 'command'), tiers=('thorough',)),
            dict(name='h_c18_tokens8', bounds='every line of 8 characters out of `$5 +_.(`', reach=('tokens', 'refused'), tiers=('thorough',)),
            dict(name='h_c18_names', bounds='names of functions, variables and numbers, each with any ASCII character before and after, next to each other', reach=('tokens', 'refused')),
            dict(name='h_c18_unicode', bounds='up to 3 ASCII characters before one of 6 other characters', reach=('refused',)),
            dict(name='h_c18_seq3', bounds='every sequence of up to 3 tokens out of all 16 kinds, every position below 2^20', reach=('syntax', 'value')),
            dict(name='h_c18_seq4', bounds='every sequence of 4 tokens out of 10 kinds, every position below 2^20', reach=('syntax', 'value')),
            dict(name='h_c18_seq5', bounds='every sequence of 5 tokens out of 7 kinds, every position below 2^20', reach=('syntax', 'value')),
            dict(name='h_c18_seq6', bounds='every sequence of 6 tokens out of 6 kinds, every position below 2^20', reach=('syntax', 'value')),
            dict(name='h_c18_seq4all', bounds='every sequence of 4 tokens out of 16 kinds, every position below 2^20', reach=('syntax', 'value'), tiers=('thorough',)),
            dict(name='h_c18_math', bounds='3 operands out of 0, 1 and 4, each plain, negated or a root, joined by any of 6 operators, every position', reach=('value',)),
            dict(name='h_c18_calls', bounds='the same with a group or a call in every place', reach=('value',)),
            dict(name='h_c18_lines', bounds='typed lines of up to 3 tokens out of 16 kinds, 0 to 2 blanks around each', reach=('error', 'value')),
            dict(name='h_c18_args', bounds='9 commands, each with up to 2 arbitrary ASCII characters after it', reach=('error', 'done')),
            dict(name='h_c18_list', bounds='5 commands, each with 5 characters out of ` -8$`', reach=('error', 'done')),
            dict(name='h_c18_numbers', bounds='3 commands with 1 to 3 arguments out of 7, with and without a sign, 1 or 2 blanks', reach=('error', 'done')),
            dict(name='h_c18_unknown', bounds='every command name of up to 2 ASCII characters', reach=('error', 'done')),
        ]),
    'C19': dict(
        mods=['ses', 'db', 'term', 'edit', 'c10', 'c19'], level=MC,
        technique='symbolic execution of the compiled opening code together with SQLite (LLVM IR of both) on a modelled file system with symbolic stored versions and capacities, with z3',
        entries=[
            dict(name='h_c19_reopen', bounds='every saved state out of the listed sequences of lines, reopened up to 3 times', reach=('reopened',)),
            dict(name='h_c19_capacity', bounds='every stored capacity from 1 to 2^63-1', reach=('one', 'more')),
            dict(name='h_c19_version', bounds='every stored version and minimum version (64 bits)', reach=('refused', 'opened')),
            dict(name='h_c19_other', bounds='4 sets of tables, every version and minimum version (64 bits) or none', reach=('refused', 'opened')),
            dict(name='h_c19_none', bounds='no data directory variable: interactive loop with submitted and recalled lines', reach=('none', 'submitted')),
        ]),
    'C20': dict(
        mods=['c05', 'ses', 'c20'], level=MC,
        technique='symbolic execution of the compiled fraction formatter and evaluator (LLVM IR) on symbolic rationals that need not be in lowest terms, with z3 (integer arithmetic)',
        entries=[
            dict(name='h_c20_dec', bounds='20-bit numerators over 10 denominators, decimal, any precision', reach=('integer', 'fraction')),
            dict(name='h_c20_radix', bounds='10-bit numerators over 6 denominators, radices 2, 7 and 16, also as output radix only', reach=('integer', 'fraction')),
            dict(name='h_c20_long', bounds='numerators of 9 to 200 digits over 6 denominators of up to 47 digits, radices 2, 10, 16', reach=('integer', 'fraction')),
            dict(name='h_c20_operator', bounds='typed lines: 10 forms of one operator or function on n/d, n to 6, d one of 1, 2, 6, 9', reach=('integer', 'fraction')),
            dict(name='h_c20_chain', bounds='typed lines: sums and differences of three fractions with one denominator out of 2, 4, 6', reach=('integer', 'fraction')),
            dict(name='h_c20_sum', bounds='+ - * / % of fractions with any 16-bit numerators', reach=('integer', 'fraction')),
        ]),
    'C21': dict(
        mods=['ses', 'db', 'term', 'prog', 'c21'], level=MC,
        technique='symbolic execution of the whole compiled program from main (LLVM IR) on symbolic command lines, what it writes compared with the interactive answer, with z3',
        entries=[
            dict(name='h_c21_line', bounds='every ASCII line of up to 2 characters, given as -i LINE, -iLINE or --input=LINE', reach=('result', 'error')),
            dict(name='h_c21_line3', bounds='every ASCII line of 3 characters', reach=('result', 'error')),
            dict(name='h_c21_line4', bounds='every line of 4 characters out of `019.+-*/%()$_a ,=`', reach=('result', 'error')),
            dict(name='h_c21_options', bounds='5 lines ending in an arbitrary digit, a or x, under 4 radix, 4 precision and 5 other options, before or after the line', reach=('result', 'error')),
            dict(name='h_c21_saved', bounds='12 lines with and without -a; before them nothing saved, or lines, a variable and a capacity', reach=('none', 'saved')),
            dict(name='h_c21_refused', bounds='7 kinds of wrong arguments, each with an arbitrary character or number', reach=('refused',)),
        ]),
    'C22': dict(
        mods=['ses', 'db', 'term', 'edit', 'prog', 'c22'], level=MC,
        technique='symbolic execution of the whole compiled program from main together with SQLite (LLVM IR) on symbolic keys and faults with a modelled terminal, raw mode and exit, with z3',
        entries=[
            dict(name='h_c22_keys', bounds='4 widths, both screens, every 2 events: any characters and modifiers, enter, up, resizes, other events, a paste', reach=('reading failed', 'narrow', 'paste', 'quit')),
            dict(name='h_c22_quit', bounds='0 to 3 keys of 4 kinds, then any ASCII character with any modifiers, both screens', reach=('quit', 'reading failed')),
            dict(name='h_c22_open', bounds='no data directory, or any one file system change fails from opening on, both screens', reach=('failed', 'quit')),
            dict(name='h_c22_output', bounds='raw mode cannot be entered, or writing fails before any of 4 keys, every 3 keys out of 4 kinds, both screens', reach=('failed', 'quit', 'reading failed')),
            dict(name='h_c22_fault', bounds='every 3 keys out of 4 kinds with saved data, any one file system change or all from one on fail, both screens', reach=('failed', 'quit')),
        ]),
    'C23': dict(
        mods=['ses', 'db', 'c23'], level=MC,
        technique='symbolic execution of two sessions as coroutines (LLVM IR of the program and SQLite) on one modelled file system, the system calls at which they take turns are symbolic, with z3',
        entries=[
            dict(name='h_c23_lines', bounds='every two lines out of 9 kinds in two sessions at the same time, the second starts at any system call of the first; after that they take turns whenever one waits for a lock', reach=('both', 'interrupted', 'waited')),
            dict(name='h_c23_first', bounds='the same with 3 kinds of lines and no earlier line', reach=('both', 'interrupted', 'waited')),
            dict(name='h_c23_lines2', bounds='two assignments to one variable, two arbitrary changes between the sessions', reach=('both', 'interrupted', 'waited')),
            dict(name='h_c23_open', bounds='a session started at any system call of another one that starts, with and without saved data, or works', reach=('opened', 'interrupted', 'waited')),
            dict(name='h_c23_lines2all', bounds='two lines out of 4 kinds, two arbitrary changes between the sessions', reach=('both', 'interrupted', 'waited'), tiers=('thorough',)),
        ]),
}
LEVEL_NOTE = ('Bounded: every value of the symbolic inputs within the bounds listed per entry in the evidence file is decided; nothing is claimed '
              'outside them. Trusted: rustc/LLVM, the engine in /verif/engine (cross-checked by native execution of sample paths on every run), z3, '
              'and the environment models listed in DESIGN.md. Every counterexample is replayed on the native build before it is reported.')
NOT_APPLICABLE = {}
