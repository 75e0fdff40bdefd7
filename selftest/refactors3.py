"""Edits of structure which keep the behaviour: names, fields, modules, representations.
A file of '*' is a regular expression replaced in all files; an edit of None makes a new file
from the text of lib.rs."""
WANT = 'equal'
E = []


def e(name, scope, *edits):
    E.append((name, scope, list(edits)))


def xref_part(s):
    i, j = s.index('trait XRefWriter {'), s.index('#[cfg(test)]\nmod tests')
    return s[i:j]


e('rename offsets', '^', ('*', r'\boffsets\b', 'positions'))
e('rename q_depth', r'^content::', ('*', r'\bq_depth\b', 'depth'))
e('rename buf inner', '^', ('*', r'\.inner\b', '.bytes'), ('*', r'\binner:', 'bytes:'))
e('rename push_decimal', '^', ('*', r'\bpush_decimal\b', 'push_real'))
e('rename push_hex', '^', ('*', r'\bpush_hex\b', 'push_hex_byte'))
e('rename regular', '^', ('*', r'\bis_regular_character\b', 'is_regular'), ('*', r'\bis_delimiter_character\b', 'is_delimiter'))
e('rename finish helpers', '^', ('*', r'\bwrite_offsets\b', 'emit_table'), ('*', r'\bfinish_trailer\b', 'write_end'),
  ('*', r'\bwrite_into_dict\b', 'write_entries'), ('*', r'\bdetermine_field_width\b', 'byte_width'))
e('rename xref writers', '^', ('*', r'\bXRefStreamWriter\b', 'StreamTable'), ('*', r'\bPlainXRefWriter\b', 'TextTable'),
  ('*', r'\bwrite_occupied_entry\b', 'used'), ('*', r'\bwrite_free_entry\b', 'unused'))
e('rename renumber helpers', '^', ('*', r'\bvalidate_ref\b', 'reference_before'), ('*', r'\beat_number_rev\b', 'number_before'),
  ('*', r'\bpatch_object\b', 'rewrite_object'), ('*', r'\bextract_object\b', 'split_object'))
e('rename private typed helpers', '^', ('*', r'\bwrite_iter\b', 'write_sides'), ('*', r'\bwrite_slice\b', 'write_ops'),
  ('*', r'\bwrite_map_primitive\b', 'write_mapped'))
e('rename limits fields', '^', ('*', r'\bname_len\b(?!\()', 'longest_name'), ('*', r'longest_name\(', 'name_len('))
e('fields reordered', '^', ('buf.rs', '''    pub(crate) inner: Vec<u8>,
    pub(crate) limits: Limits,
''', '''    pub(crate) limits: Limits,
    pub(crate) inner: Vec<u8>,
'''), ('chunk.rs', '''    pub(crate) buf: Buf,
    pub(crate) offsets: Vec<(Ref, usize)>,
    pub(crate) settings: Settings,
''', '''    pub(crate) settings: Settings,
    pub(crate) offsets: Vec<(Ref, usize)>,
    pub(crate) buf: Buf,
'''), ('content.rs', '''    op: &'a str,
    first: bool,
''', '''    first: bool,
    op: &'a str,
'''))
e('xref writers in a module', '^', ('xref.rs', None, lambda s: 'use super::*;\n\n' + xref_part(s).replace('trait XRefW', 'pub(crate) trait XRefW')
    .replace('\nstruct ', '\npub(crate) struct ').replace('    fn new(', '    pub(crate) fn new(').replace('\nfn determine', '\npub(crate) fn determine')
    .replace('    field_width: u32,', '    pub(crate) field_width: u32,').replace('    buf: Vec<u8>,', '    pub(crate) buf: Vec<u8>,')),
  ('*', r'(?s)^(.*\nmod chunk;.*?)trait XRefWriter \{.*?(#\[cfg\(test\)\]\nmod tests)', r'\1\2'),
  ('*', r'(\n)mod chunk;', r'\1mod chunk;\nmod xref;\nuse xref::*;'))
e('first operand inverted', r'^content::', ('content.rs', '''    first: bool,
    settings''', '''    started: bool,
    settings'''), ('content.rs', 'first: true', 'started: false'),
  ('content.rs', 'if self.first {', 'if !self.started {'), ('content.rs', 'if self.first {', 'if !self.started {'),
  ('content.rs', 'self.first = false', 'self.started = true'))
e('trailer params swapped', '^Pdf', ('*', r'fn finish_trailer\(mut buf: Buf, xref_offset: usize, pad: &\[u8\]\)', 'fn finish_trailer(xref_offset: usize, pad: &[u8], mut buf: Buf)'),
  ('*', r'finish_trailer\(buf, xref_offset, ([^)]*)\)', r'finish_trailer(xref_offset, \1, buf)'))
e('trailer as tuple struct', '^Pdf', ('*', r'\bcatalog_id\b', 'root'), ('*', r'\binfo_id\b', 'info'), ('*', r'self\.trailer_data\b', 'self.trailer'),
  ('*', r'\btrailer_data: TrailerData', 'trailer: TrailerData'), ('*', r'trailer_data: Def', 'trailer: Def'))
e('field width closure', '^Pdf', ('lib.rs', '''        let field_width = determine_field_width(xref_offset.max(max_id as usize));''',
  '''        let wanted = |n: usize| determine_field_width(n);
        let field_width = wanted(xref_offset).max(wanted(max_id as usize));'''))
e('xref writer as trait object', '^Pdf', ('lib.rs', 'writer: &mut impl XRefWriter', 'writer: &mut dyn XRefWriter'))
e('trailer end inlined', '^Pdf', ('lib.rs', '''        finish_trailer(buf, xref_offset, &[])
''', '''        buf.extend(b"startxref\\n");
        write!(buf.inner, "{xref_offset}").unwrap();
        buf.extend(b"\\n%%EOF");
        buf.into_vec()
'''))
e('offset entry struct', '^Pdf|^chunk|^renumber', ('chunk.rs', 'pub(crate) offsets: Vec<(Ref, usize)>', 'pub(crate) offsets: Vec<Located>'),
  ('chunk.rs', '''impl Chunk {''', '''#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord)]
pub(crate) struct Located {
    pub(crate) id: Ref,
    pub(crate) offset: usize,
}

impl Chunk {'''), ('chunk.rs', '.extend(other.offsets.iter().map(|&(id, offset)| (id, base + offset)));', '.extend(other.offsets.iter().map(|l| Located { id: l.id, offset: base + l.offset }));'),
  ('chunk.rs', 'map(|&(id, _)| id)', 'map(|l| l.id)'), ('chunk.rs', 'push((id, self.buf.len()))', 'push(Located { id, offset: self.buf.len() })'),
  ('lib.rs', 'offsets.push((xref_id, xref_offset));', 'offsets.push(crate::chunk::Located { id: xref_id, offset: xref_offset });'),
  ('lib.rs', 'map(|p| p.0.get()).max()', 'map(|p| p.id.get()).max()'), ('lib.rs', 'map_or(0, |p| p.0.get())', 'map_or(0, |p| p.id.get())'),
  ('lib.rs', 'mut offsets: Vec<(Ref, usize)>', 'mut offsets: Vec<crate::chunk::Located>'),
  ('lib.rs', 'for (i, (object_id, offset)) in offsets', 'for (i, crate::chunk::Located { id: object_id, offset }) in offsets'),
  ('lib.rs', 'for (used_id, _) in &offsets[i..]', 'for crate::chunk::Located { id: used_id, .. } in &offsets[i..]'),
  ('lib.rs', 'for &(id, offset) in &chunk.offsets', 'for &crate::chunk::Located { id, offset } in &chunk.offsets'),
  ('renumber.rs', 'target.offsets.push((new, target.buf.len()));', 'target.offsets.push(crate::chunk::Located { id: new, offset: target.buf.len() });'),
  ('renumber.rs', 'iter().copied().peekable()', 'iter().map(|l| (l.id, l.offset)).peekable()'))
e('settings passed as bool', '^chunk', ('chunk.rs', 'self.offsets.push((id, self.buf.len()));', '''let start = self.buf.len();
        self.offsets.push((id, start));'''))
e('renumber through free function', '^chunk|^renumber', ('chunk.rs', '''        let mut chunk = Chunk::with_capacity(self.len());
        self.renumber_into(&mut chunk, mapping);
        chunk
''', '''        let mut mapping = mapping;
        let mut chunk = Chunk::with_capacity(self.len());
        chunk.buf.reserve(self.len());
        crate::renumber::renumber(self, &mut chunk, &mut mapping);
        chunk
'''))
e('extend per entry', '^chunk', ('chunk.rs', '''        self.offsets
            .extend(other.offsets.iter().map(|&(id, offset)| (id, base + offset)));''', '''        self.offsets.reserve(other.offsets.len());
        for &(id, offset) in other.offsets.iter() {
            let moved = base + offset;
            self.offsets.push((id, moved));
        }'''))
