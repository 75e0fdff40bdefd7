"""Compile-fail witnesses: (name, expected error codes, program with @@line@@ marking what must not compile).

The twin is the same program without the marked line and must compile."""
W = []


def w(name, codes, body, pre=''):
    W.append((name, codes, pre, body))


w('parent written while a child dictionary is open', 'E0499 E0502 E0505', '''
    let mut chunk = Chunk::new();
    let mut obj = chunk.indirect(Ref::new(1)).dict();
    @@chunk.indirect(Ref::new(2)).primitive(1);@@
    obj.pair(Name(b"A"), 1);
''')
w('two pages open at once', 'E0499', '''
    let mut pdf = Pdf::new();
    let mut a = pdf.page(Ref::new(1));
    @@let b = pdf.page(Ref::new(2));@@
    a.parent(Ref::new(3));
''')
w('document finished while a page is open', 'E0505', '''
    let mut pdf = Pdf::new();
    let mut a = pdf.page(Ref::new(1));
    @@let _ = pdf.finish();@@
    a.parent(Ref::new(3));
''')
w('document finished by stream while a page is open', 'E0505', '''
    let mut pdf = Pdf::new();
    let mut a = pdf.page(Ref::new(1));
    @@let _ = pdf.finish_with_xref_stream(Ref::new(9));@@
    a.parent(Ref::new(3));
''')
w('document used after finishing', 'E0382', '''
    let mut pdf = Pdf::new();
    pdf.pages(Ref::new(1));
    let _bytes = pdf.finish();
    @@pdf.pages(Ref::new(2));@@
''')
w('document used after finishing with a stream', 'E0382', '''
    let mut pdf = Pdf::new();
    pdf.pages(Ref::new(1));
    let _bytes = pdf.finish_with_xref_stream(Ref::new(5));
    @@pdf.pages(Ref::new(2));@@
''')
w('document finished twice', 'E0382', '''
    let pdf = Pdf::new();
    let _bytes = pdf.finish();
    @@let _again = pdf.finish();@@
''')
w('object slot filled twice with primitives', 'E0382', '''
    let mut chunk = Chunk::new();
    let obj = chunk.indirect(Ref::new(1));
    obj.primitive(1);
    @@obj.primitive(2);@@
''')
w('object slot filled with a primitive and a dictionary', 'E0382', '''
    let mut chunk = Chunk::new();
    let obj = chunk.indirect(Ref::new(1));
    obj.primitive(1);
    @@obj.dict();@@
''')
w('object slot filled with a dictionary and an array', 'E0382', '''
    let mut chunk = Chunk::new();
    let obj = chunk.indirect(Ref::new(1));
    obj.dict();
    @@obj.array();@@
''')
w('object slot filled with an array and a primitive', 'E0382', '''
    let mut chunk = Chunk::new();
    let obj = chunk.indirect(Ref::new(1));
    obj.array();
    @@obj.primitive(1);@@
''')
w('object slot filled by a typed writer and a primitive', 'E0382', '''
    let mut chunk = Chunk::new();
    let obj = chunk.indirect(Ref::new(1));
    obj.start::<Dict>();
    @@obj.primitive(1);@@
''')
w('object writer duplicated', 'E0599', '''
    let mut chunk = Chunk::new();
    let obj = chunk.indirect(Ref::new(1));
    @@let twin = obj.clone();@@
    obj.primitive(1);
''')
w('dictionary writer duplicated', 'E0599', '''
    let mut chunk = Chunk::new();
    let mut d = chunk.indirect(Ref::new(1)).dict();
    @@let twin: Dict = d.clone();@@
    d.pair(Name(b"A"), 1);
''')
w('array writer duplicated', 'E0599', '''
    let mut chunk = Chunk::new();
    let mut d = chunk.indirect(Ref::new(1)).array();
    @@let twin: Array = d.clone();@@
    d.item(1);
''')
w('stream writer duplicated', 'E0599', '''
    let mut chunk = Chunk::new();
    let mut d = chunk.stream(Ref::new(1), b"x");
    @@let twin: Stream = d.clone();@@
    d.pair(Name(b"A"), 1);
''')
w('two entries of one dictionary open', 'E0499', '''
    let mut chunk = Chunk::new();
    let mut d = chunk.indirect(Ref::new(1)).dict();
    let a = d.insert(Name(b"A"));
    @@let b = d.insert(Name(b"B"));@@
    a.primitive(1);
''')
w('dictionary pair while an entry is open', 'E0499', '''
    let mut chunk = Chunk::new();
    let mut d = chunk.indirect(Ref::new(1)).dict();
    let mut a = d.insert(Name(b"A")).array();
    @@d.pair(Name(b"B"), 2);@@
    a.item(1);
''')
w('two items of one array open', 'E0499', '''
    let mut chunk = Chunk::new();
    let mut d = chunk.indirect(Ref::new(1)).array();
    let a = d.push();
    @@let b = d.push();@@
    a.primitive(1);
''')
w('array item while a nested item is open', 'E0499', '''
    let mut chunk = Chunk::new();
    let mut d = chunk.indirect(Ref::new(1)).array();
    let mut a = d.push().dict();
    @@d.item(2);@@
    a.pair(Name(b"A"), 1);
''')
w('dictionary written after it was finished', 'E0382', '''
    let mut chunk = Chunk::new();
    let mut d = chunk.indirect(Ref::new(1)).dict();
    d.pair(Name(b"A"), 1);
    d.finish();
    @@d.pair(Name(b"B"), 1);@@
''')
w('array written after it was finished', 'E0382', '''
    let mut chunk = Chunk::new();
    let mut d = chunk.indirect(Ref::new(1)).array();
    d.item(1);
    d.finish();
    @@d.item(2);@@
''')
w('stream written after it was finished', 'E0382', '''
    let mut chunk = Chunk::new();
    let mut d = chunk.stream(Ref::new(1), b"x");
    d.pair(Name(b"A"), 1);
    d.finish();
    @@d.pair(Name(b"B"), 1);@@
''')
w('writer outlives its chunk', 'E0597 E0505', '''
    let mut keep = None;
    {
        let mut chunk = Chunk::new();
        @@keep = Some(chunk.indirect(Ref::new(1)).dict());@@
        chunk.indirect(Ref::new(1)).dict();
    }
    if let Some(mut d) = keep { let d: &mut Dict = &mut d; d.pair(Name(b"A"), 1); }
''')
w('chunk extended by itself while an object is open', 'E0499 E0502', '''
    let mut chunk = Chunk::new();
    let other = Chunk::new();
    let mut d = chunk.indirect(Ref::new(1)).dict();
    @@chunk.extend(&other);@@
    d.pair(Name(b"A"), 1);
''')
w('chunk bytes read while an object is open', 'E0502', '''
    let mut chunk = Chunk::new();
    let mut d = chunk.indirect(Ref::new(1)).dict();
    @@let _ = chunk.as_bytes();@@
    d.pair(Name(b"A"), 1);
''')
w('two streams open at once', 'E0499', '''
    let mut chunk = Chunk::new();
    let mut a = chunk.stream(Ref::new(1), b"x");
    @@let b = chunk.stream(Ref::new(2), b"y");@@
    a.pair(Name(b"A"), 1);
''')
w('two content operations open at once', 'E0499', '''
    let mut c = Content::new();
    let mut a = c.op("Tj");
    @@let b = c.op("Tj");@@
    a.operand(1);
''')
w('content operator while an operation is open', 'E0499', '''
    let mut c = Content::new();
    let mut a = c.op("Tj");
    @@c.save_state();@@
    a.operand(1);
''')
w('content finished while an operation is open', 'E0505', '''
    let mut c = Content::new();
    let mut a = c.op("Tj");
    @@let _ = c.finish();@@
    a.operand(1);
''')
w('content used after finishing', 'E0382', '''
    let mut c = Content::new();
    c.save_state();
    let _ = c.finish();
    @@c.restore_state();@@
''')
w('positioned text open while text is shown', 'E0499', '''
    let mut c = Content::new();
    let mut s = c.show_positioned();
    @@c.end_text();@@
    s.items();
''')
w('marked content properties open while content is written', 'E0499', '''
    let mut c = Content::new();
    let mut s = c.begin_marked_content_with_properties(Name(b"T"));
    @@c.end_marked_content();@@
    s.properties();
''')
w('operation duplicated', 'E0599', '''
    let mut c = Content::new();
    let mut a = c.op("Tj");
    @@let twin: pdf_writer::writers::Operation = a.clone();@@
    a.operand(1);
''')
w('resources open while the page is written', 'E0499', '''
    let mut pdf = Pdf::new();
    let mut page = pdf.page(Ref::new(1));
    let mut r = page.resources();
    @@page.parent(Ref::new(2));@@
    r.fonts();
''')
w('typed array item open while another is pushed', 'E0499', '''
    let mut chunk = Chunk::new();
    let mut d = chunk.indirect(Ref::new(1)).array();
    let mut t = d.push().array().typed::<Ref>();
    @@d.push();@@
    t.item(Ref::new(3));
''')
w('buffer of an object writer reached directly', 'E0616 E0609', '''
    let mut chunk = Chunk::new();
    let o = chunk.indirect(Ref::new(1));
    @@let b = &o.buf;@@
    o.primitive(1);
''')
w('reference built around its check', 'E0423 E0603 E0616', '''
    @@let r = Ref(std::num::NonZeroI32::new(1).unwrap());@@
    let _ = Ref::new(1);
''')
w('value type of the caller', 'E0277', '''
    struct Mine;
    let mut chunk = Chunk::new();
    @@chunk.indirect(Ref::new(1)).primitive(Mine);@@
    chunk.indirect(Ref::new(2)).primitive(1);
''')
w('renumbered chunk consumed twice while open', 'E0499 E0502 E0505', '''
    let mut chunk = Chunk::new();
    let mut d = chunk.indirect(Ref::new(1)).dict();
    @@let _ = chunk.renumber(|r| r);@@
    d.pair(Name(b"A"), 1);
''')
