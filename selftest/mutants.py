"""Edits that change the behaviour of the heavier functions; each must be reported."""
WANT = 'differs'
FIN = r'^Pdf::finish'
REN = r'^<?(chunk|renumber)::'
E = [
('sort by id only', FIN, [('lib.rs', 'offsets.sort();', 'offsets.sort_by_key(|p| std::cmp::Reverse(p.1)); offsets.sort_by_key(|p| p.0.get() / 2);')]),
('free gen of later', FIN, [('lib.rs', 'let gen = if free_id == 0 { 65535 } else { 0 };', 'let gen = if free_id == start { 65535 } else { 0 };')]),
('next free off', FIN, [('lib.rs', 'if next < used_id.get() {', 'if next <= used_id.get() {')]),
('next free skip', FIN, [('lib.rs', 'for (used_id, _) in &offsets[i..] {', 'for (used_id, _) in &offsets[i..(i + 2).min(offsets.len())] {')]),
('occupied gen', FIN, [('lib.rs', 'writer.write_occupied_entry(*offset, 0);', 'writer.write_occupied_entry(*offset, if i > 9 { 1 } else { 0 });')]),
('dup check last', FIN, [('lib.rs', 'if written > object_id.get() {', 'if written > object_id.get() && i + 1 < offsets.len() {')]),
('field width bits', FIN, [('lib.rs', '(usize::BITS - offset.leading_zeros()).div_ceil(8)', '(usize::BITS - offset.leading_zeros()).div_ceil(8).min(3)')]),
('field width max1', FIN, [('lib.rs', '(usize::BITS - offset.leading_zeros()).div_ceil(8)', '(usize::BITS - offset.saturating_sub(1).leading_zeros()).div_ceil(8)')]),
('xref len stream', FIN, [('lib.rs', 'let start = written;', 'let start = written.max(1).min(written + i as i32);')]),
('ref gen zero', REN, [('renumber.rs', '''                    buf.push_int(gen);
                    buf.push(b' ');
                    buf.push(b'R');''', '''                    buf.push_int(gen.min(9));
                    buf.push(b' ');
                    buf.push(b'R');''')]),
('ws without ff', REN, [('renumber.rs', "b'\\t' | b'\\n' | b'\\x0c' | b'\\r'", "b'\\t' | b'\\n' | b'\\r'")]),
('string escape', REN, [('renumber.rs', "b'\\\\' => seen += 1,", "b'\\\\' if depth > 1 => seen += 1,")]),
('comment only lf', REN, [('renumber.rs', "b'\\n' | b'\\r' => break,", "b'\\n' => break,")]),
('stream suffix', REN, [('renumber.rs', 'prefix.ends_with(b">>")', 'prefix.ends_with(b">")')]),
('id one', REN, [('renumber.rs', '(id > 0).then(', '(id > 1).then(')]),
('endobj first', REN, [('renumber.rs', 'memchr::memmem::rfind(slice, b"endobj")', 'memchr::memmem::find(slice, b"endobj")')]),
('head no ws', REN, [('renumber.rs', '''    while slice.get(head).copied().is_some_and(is_whitespace) {
        head += 1;''', '''    if slice.get(head).copied().is_some_and(is_whitespace) {
        head += 1;''')]),
('renumber offset of last', REN, [('renumber.rs', '.map_or(source.buf.len(), |&(_, offset)| offset)', '.map_or(source.buf.len().saturating_sub(1), |&(_, offset)| offset)')]),
('renumber skip mapping', REN, [('renumber.rs', 'target.offsets.push((new, target.buf.len()));', 'if target.offsets.last().is_none_or(|p| p.0 != new) { target.offsets.push((new, target.buf.len())); }')]),
('extend rebase', REN, [('chunk.rs', '(id, base + offset)', '(id, base.max(offset) + base.min(offset) - (base == 70_000) as usize)')]),
('extend drops limits', REN, [('chunk.rs', 'self.buf.extend_buf(&other.buf);', 'if other.buf.len() > 3 { self.buf.extend_buf(&other.buf); } else { self.buf.extend(&other.buf); }')]),
]
