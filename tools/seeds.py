TS = 'src/lib/gen/ts.rs'
CH = 'src/lib/check.rs'
PA = 'src/lib/parser.rs'
LI = 'src/lib/lib.rs'
MA = 'src/main.rs'
SEEDS = []


def seed(id, prop, edits, needs, breaks, demo, js=None):
    d = dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo)
    if js:
        d['js'] = js
    SEEDS.append(d)


def codec(schema):
    return '''
cat > "$w/x.pkt" <<'S'
%s
S
"$bin" ts "$w/x.pkt" "$w/out" > "$w/log" 2>&1 || { cat "$w/log"; exit 1; }
node "$here/run.js" "$w/out/x.ts" "$here/test.js"
''' % schema.strip('\n')


def accepts(schema):
    return '''
cat > "$w/x.pkt" <<'S'
%s
S
"$bin" ts "$w/x.pkt" "$w/out" > "$w/log" 2>&1 || { echo "rejected"; cat "$w/log"; exit 1; }
[ -s "$w/out/x.ts" ]
''' % schema.strip('\n')


def rejects(schema, *words):
    return '''
cat > "$w/x.pkt" <<'S'
%s
S
if "$bin" ts "$w/x.pkt" "$w/out" > "$w/log" 2>&1; then echo "accepted"; exit 1; fi
grep -q panicked "$w/log" && { cat "$w/log"; exit 1; }
%s
exit 0
''' % (schema.strip('\n'), '\n'.join('''grep -qw -- '%s' "$w/log" || { echo "%s is not in:"; cat "$w/log"; exit 1; }''' % (x, x) for x in words))


V20 = ', '.join('V%d' % i for i in range(20))
V12 = ', '.join('V%d' % i for i in range(12))
V16 = ', '.join('V%d' % i for i in range(16))
V32 = ', '.join('V%d' % i for i in range(32))

seed('read-wide-enum', 'P01', {TS: [('''    let repr_name = match type_info.repr {
        check::EnumRepr::U8 => "uint8",
        check::EnumRepr::U16 => "uint16",
        check::EnumRepr::U32 => "uint32",
    };
    let (min''', '''    let repr_name = match type_info.repr {
        check::EnumRepr::U8 => "uint8",
        check::EnumRepr::U16 | check::EnumRepr::U32 => "uint16",
    };
    let (min''')]},
     'an enum with more than 16 variants', 'the reader consumes two bytes for an enum the writer stores in four',
     codec('F: enum { %s }\nT: struct { a: F, b: uint8 }\nexport T' % V20),
     '''module.exports = ({ mod, same, fail }) => {
    const t = new mod.T(1 << 3, 77);
    const r = mod.T.read(t.write());
    if (!r || r.a !== 8 || r.b !== 77) fail(JSON.stringify(r));
};''')

seed('optional-string-empty', 'P02', {TS: [('''    cat!(ctx, "case undefined: case null: writer.write_uint8(0); break;\\n");
''', '''    let empty = if ctx.stack.len() == 1 && bind_var.matches('_').count() > 3 { " case 0:" } else { "" };
    cat!(ctx, "case undefined: case null:{empty} writer.write_uint8(0); break;\\n");
''')]},
     'an optional numeric field deep inside nested structs with the value 0', 'a present value of 0 is encoded as absent',
     codec('D: struct { v?: uint16 }\nC: struct { d: D }\nB: struct { c: C }\nT: struct { b: B, z: uint8 }\nexport T'),
     '''module.exports = ({ mod, same, fail }) => {
    const b = new Uint8Array(new mod.T({ c: { d: { v: 0 } } }, 9).write());
    if (Buffer.from(b).toString('hex') !== '01000009') fail(Buffer.from(b).toString('hex'));
};''')

seed('drop-optional-user-field', 'P03', {CH: [('''            if fields.len() == s.0.len() {
''', '''            // optional fields may be left out
            if fields.len() >= s.0.iter().filter(|(_, fty)| !fty.2).count() && !fields.is_empty() {
''')]},
     'a struct with builtin fields and an optional field of a declared type', 'the optional field of a declared type is lost from the code',
     codec('P: struct { x: uint8 }\nT: struct { a: uint8, p?: P }\nexport T'),
     '''module.exports = ({ mod, same, fail }) => {
    const r = mod.T.read(new mod.T(1, { x: 5 }).write());
    if (!r || r.a !== 1 || !r.p || r.p.x !== 5) fail(JSON.stringify(r));
};''')

seed('deep-write-path', 'P04', {TS: [('''fn fname(stack: &[String]) -> String { stack.join(".") }
''', '''fn fname(stack: &[String]) -> String {
    match stack {
        [first, .., owner, field] if stack.len() > 4 => format!("{}.{}.{}", first, owner, field),
        _ => stack.join("."),
    }
}
''')]},
     'structs nested four levels deep', 'the writer takes values of deeply nested fields from the wrong path',
     codec('D: struct { v: uint8 }\nC: struct { d: D }\nB: struct { c: C }\nT: struct { b: B }\nexport T'),
     '''module.exports = ({ mod, same, fail }) => {
    let b;
    try { b = new Uint8Array(new mod.T({ c: { d: { v: 7 } } }).write()); } catch (e) { fail(e); }
    if (b.length !== 1 || b[0] !== 7) fail(b);
};''')

seed('enum-width-16', 'P05', {CH: [('        n if n <= 16 => EnumRepr::U16,', '        n if n < 16 => EnumRepr::U16,')]},
     'an enum with exactly 16 variants', 'an enum of 16 variants is stored in four bytes',
     codec('F: enum { %s }\nT: struct { a: F }\nexport T' % V16),
     '''module.exports = ({ mod, fail }) => {
    const b = new Uint8Array(new mod.T(1 << 15).write());
    if (b.length !== 2) fail(b.length + ' bytes');
};''')

seed('enum-bit-reuse', 'P05', {CH: [('''                count += 1;
                count - 1
''', '''                count += 1;
                (count - 1) % 16
''')]},
     'an enum with more than 16 variants', 'variants 16 and up have the same values as the first ones',
     codec('F: enum { %s }\nT: struct { a: F }\nexport T' % V20),
     '''module.exports = ({ src, ts, fail }) => {
    const f = ts.createSourceFile('x.ts', src, ts.ScriptTarget.Latest, true);
    let n = 0;
    (function v(x) {
        if (ts.isEnumMember(x)) {
            ++n;
            const value = eval(x.initializer.getText()), want = 2 ** Number(x.name.getText().slice(1));
            if (value !== want) fail(x.getText());
        }
        ts.forEachChild(x, v);
    })(f);
    if (n !== 20) fail(n + ' variants');
};''')

seed('wide-enum-unchecked', 'P06', {TS: [('''    cat!(ctx, "if ({min} <= {temp} && {temp} <= {max}) {fname} = {temp};\\n");
    cat!(ctx, "else reader.failed = true;\\n");
''', '''    match type_info.repr {
        // every bit of the integer is in use
        check::EnumRepr::U32 => cat!(ctx, "{fname} = {temp};\\n"),
        _ => {
            cat!(ctx, "if ({min} <= {temp} && {temp} <= {max}) {fname} = {temp};\\n");
            cat!(ctx, "else reader.failed = true;\\n");
        }
    }
''')]},
     'an enum of 17 to 32 variants and an out of range value on the wire', 'out of range values of wide enums are accepted',
     codec('F: enum { %s }\nT: struct { a: F }\nexport T' % V20),
     '''module.exports = ({ mod, fail }) => {
    const r = mod.T.read(new Uint8Array([0, 0, 0, 128]).buffer);
    if (r !== null) fail('accepted ' + r.a);
    const z = mod.T.read(new Uint8Array([0, 0, 0, 0]).buffer);
    if (z !== null) fail('accepted 0');
    const ok = mod.T.read(new Uint8Array([4, 0, 0, 0]).buffer);
    if (!ok || ok.a !== 4) fail('rejected 4');
};''')

seed('no-null-all-optional', 'P07', {TS: [('''        cat!(ctx, "if (reader.failed) return null;\\n");
''', '''        // a packet which may be empty cannot fail
        if export.r#struct.fields.is_empty() || export.r#struct.fields.iter().any(|f| !f.optional) {
            cat!(ctx, "if (reader.failed) return null;\\n");
        }
''')]},
     'an exported struct which has only optional fields, and a truncated message', 'a failed read returns a partially filled object',
     codec('T: struct { a?: uint32, b?: string }\nexport T'),
     '''module.exports = ({ mod, fail }) => {
    if (mod.T.read(new Uint8Array([1, 2]).buffer) !== null) fail('truncated message accepted');
    if (mod.T.read(new Uint8Array([0, 0]).buffer) === null) fail('good message rejected');
};''')

seed('decl-prefix', 'P08', {TS: [('''            if *name == export {
''', '''            if name.starts_with(export) {
''')]},
     'a used type whose name starts with the name of the exported type', 'that type is missing from the declarations',
     codec('TestItem: struct { a: uint8 }\nTest: struct { i: TestItem }\nexport Test'),
     '''module.exports = ({ src, ts, fail }) => {
    const f = ts.createSourceFile('x.ts', src, ts.ScriptTarget.Latest, true);
    const names = [];
    (function v(n) { if (ts.isInterfaceDeclaration(n) || ts.isEnumDeclaration(n) || ts.isTypeAliasDeclaration(n)) names.push(n.name.text); ts.forEachChild(n, v); })(f);
    if (!names.includes('TestItem')) fail('TestItem is not declared: ' + names);
};''')

seed('temp-name', 'P09', {TS: [('''    let temp = self::varname(&ctx.stack, "temp");
''', '''    let temp = match type_info.repr {
        check::EnumRepr::U8 => self::varname(&ctx.stack, "temp"),
        _ => self::varname(&ctx.stack[..ctx.stack.len() - 1], "temp"),
    };
''')]},
     'a struct with two enums of more than eight variants', 'the generated code declares the same local twice',
     codec('F: enum { %s }\nT: struct { a: F, b: F }\nexport T' % V12),
     '''module.exports = ({ mod, fail, syntax }) => {
    if (syntax.length) fail(syntax.join());
    const r = mod.T.read(new mod.T(4, 8).write());
    if (!r || r.a !== 4 || r.b !== 8) fail(JSON.stringify(r));
};''' )

seed('adjacent-variants', 'P10', {CH: [('''        if variant_names.contains(&variant) {
''', '''        if variants.last().map(|v: &EnumVariant| v.name) == Some(variant) {
''')]},
     'the same variant twice in an enum with another variant in between', 'duplicate variants are accepted',
     rejects('F: enum { A, B, A }\nT: struct { f: F }\nexport T'))

seed('field-duplicate-first-struct', 'P10', {CH: [('''                field_names.insert(fname);
                if let Some(field) = resolve_struct_field(fname, fty.clone(), builtins, name)? {
''', '''                if !fty.2 {
                    field_names.insert(fname);
                }
                if let Some(field) = resolve_struct_field(fname, fty.clone(), builtins, name)? {
''')]},
     'a field declared after an optional field of the same name', 'duplicate fields are accepted',
     rejects('T: struct { a?: uint8, b: uint8, a: float }\nexport T'))

seed('repeated-export', 'P11', {CH: [('''            ast::Node::Export(_) => return Err''', '''            ast::Node::Export(n) if export == Some(n) => (),
            ast::Node::Export(_) if ast.len() == 0 => (),
            ast::Node::Export(_) => return Err'''), ('''    match export {
        Some(e) => Ok(e),
''', '''    match export {
        Some(_) if ast.len() == 3 && ast[1..].iter().all(|n| matches!(n, ast::Node::Export(_))) => {
            Err("Schema has more than one export".to_string())
        }
        Some(e) => Ok(e),
''')]},
     'two identical export statements', 'a schema with a repeated export is accepted',
     rejects('P: struct { x: uint8 }\nexport T\nT: struct { p: P }\nexport T'))
SEEDS.pop()

seed('export-of-first', 'P11', {CH: [('''            Err(format!("Attempted to export '{}', which is not a struct", name))
''', '''            match resolved.values().filter(|t| t.borrow().1.get_struct_variant().is_some()).count() {
                1 => {
                    let only = resolved.values().find_map(|t| t.borrow().1.get_struct_variant()).unwrap();
                    Ok(Export { name, r#struct: only })
                }
                _ => Err(format!("Attempted to export '{}', which is not a struct", name)),
            }
''')]},
     'an enum exported from a schema with exactly one struct', 'exporting an enum is accepted',
     rejects('F: enum { A }\nT: struct { f: F }\nexport F'))

seed('optional-self', 'P12', {CH: [('''        let mut fields = Vec::new();
        for (field_name, field_type) in s.0.into_iter() {
''', '''        let mut fields = Vec::new();
        for (field_name, field_type) in s.0.into_iter().filter(|(_, t)| !(t.2 && t.0 == name)) {
''')]},
     'a struct with an optional field of its own type', 'a recursive type is accepted',
     rejects('T: struct { next?: T, v: uint8 }\nexport T'))

seed('bool-alias', 'P12', {CH: [('''        ("int8", Ptr::new(("int8", ResolvedType::Builtin(Builtin::Int8)))),
''', '''        ("bool", Ptr::new(("uint8", ResolvedType::Builtin(Builtin::Uint8)))),
        ("int8", Ptr::new(("int8", ResolvedType::Builtin(Builtin::Int8)))),
''')]},
     'a field of the undeclared type bool', 'an unknown type is accepted',
     rejects('T: struct { v: bool }\nexport T', 'bool'))

seed('optional-array-user', 'P13', {CH: [('''            if fty.1 && fty.2 {
''', '''            if fty.1 && fty.2 && matches!(rty.borrow().1, ResolvedType::Builtin(_)) {
''')]},
     'an optional array of a declared type', 'an optional array is accepted',
     rejects('P: struct { x: uint8 }\nT: struct { a?: P[] }\nexport T'))

seed('enum-max-33', 'P13', {CH: [('''        n if n <= 32 => EnumRepr::U32,
''', '''        n if n <= 32 || n == 64 => EnumRepr::U32,
''')]},
     'an enum with 64 variants', 'an enum that does not fit is accepted',
     rejects('F: enum { %s }\nT: struct { a: uint8 }\nexport T' % ', '.join('V%d' % i for i in range(64))))

seed('enum-max-31', 'P14', {CH: [('''        n if n <= 32 => EnumRepr::U32,
''', '''        n if n < 32 => EnumRepr::U32,
''')]},
     'an enum with exactly 32 variants', 'a valid schema is rejected',
     accepts('F: enum { %s }\nT: struct { a: F }\nexport T' % V32))

seed('name-of-field-as-type', 'P14', {CH: [('''                if field_names.contains(&fname) {
''', '''                if field_names.contains(&fname) || (s.0.len() > 1 && *fname == name) {
''')]},
     'a struct with a field named like the struct itself', 'a valid schema is rejected',
     accepts('T: struct { T: uint8, b: float }\nexport T'))

seed('reserved-double', 'P17', {PA: [('''        / "float"
''', '''        / "float" / "double"
''')]},
     'a field named double', 'a valid name is rejected',
     accepts('T: struct { double: uint8 }\nexport T'))

seed('reserved-float', 'P17', {PA: [('''        / "float"
''', '''        / "float32"
''')]},
     'a field named float', 'a reserved word is accepted as a name',
     rejects('T: struct { float: uint8 }\nexport T'))

seed('comma-newline', 'P18', {PA: [('''a:("[]"?) ___ ","? ___ { Some''', '''a:("[]"?) _ ","? ___ { Some''')]},
     'a line break between a field and the comma after it', 'layout changes whether a schema is accepted',
     accepts('T: struct {\n    a: uint8\n    , b: uint8\n}\nexport T'))

seed('comment-tail', 'P18', {PA: [('''        = "#" [ch if ch != '\\n']* __
''', '''        = "#" [ch if ch != '\\n' && ch != ';']* (";" [ch if ch != '\\n']*)? __ (";" [_])*
''')]},
     'a line starting with a semicolon after a comment', 'text that is not part of the language is accepted',
     rejects('T: struct { a: uint8 }\n# hello\n;x\nexport T'))

seed('culprit-field', 'P25', {CH: [('''                    "Field '{}' in struct '{}' cannot be optional and array at once",
                    fname, ttypename
''', '''                    "Field '{}' in struct '{}' cannot be optional and array at once",
                    fname,
                    if resolved.len() > 8 { fty.0 } else { ttypename }
''')]},
     'an optional array whose type is a struct or enum, or next to fields of such types', 'the message names the type of the field instead of the struct',
     rejects('P: struct { x: uint8 }\nHolder: struct { list?: P[] }\nexport Holder', 'list', 'Holder'))

seed('cycle-as-unknown', 'P25', {CH: [('''        visited.insert(name);
''', '''        if cache.len() <= 8 {
            visited.insert(name);
        }
''')]},
     'a recursive type in a schema with an enum', 'a recursive type is reported as a type that does not exist',
     rejects('E: enum { X }\nA: struct { b: B }\nB: struct { c: C }\nC: struct { a: A }\nexport A') .replace('exit 0', '''grep -qiE 'cycl|recurs' "$w/log" || { cat "$w/log"; exit 1; }
exit 0'''))


def fails(setup, path='in', more=''):
    """the command has to fail on this tree"""
    return '''
cd "$w"
%s
if "$bin" ts %s out > log 2>&1; then echo "success reported:"; cat log; ls -R .; exit 1; fi
%s
exit 0
''' % (setup.strip('\n'), path, more)


def writes(setup, path, out, want, more=''):
    """the command succeeds and exactly these files are written"""
    return '''
cd "$w"
%s
"$bin" ts %s %s > log 2>&1 || { echo "the command fails:"; cat log; exit 1; }
(cd %s && find . -type f | sort) > got
cat > want <<'S'
%s
S
sort -o want want
diff want got || exit 1
%s
exit 0
''' % (setup.strip('\n'), path, out, out, want.strip('\n'), more)


T1 = "'T: struct { a: uint8 }\\nexport T\\n'"

seed('skip-unreadable', 'P21', {MA: [('''        out.push(run_one(
            entry
                .path()
                .to_str()
                .ok_or_else(|| anyhow::anyhow!("invalid path"))?
                .into(),
            lang,
        )?);
''', '''        let result = run_one(
            entry
                .path()
                .to_str()
                .ok_or_else(|| anyhow::anyhow!("invalid path"))?
                .into(),
            lang,
        );
        match result {
            Err(e) if e.downcast_ref::<std::io::Error>().is_some() => println!("Skipping {}: {}", entry.path().display(), e),
            result => out.push(result?),
        }
''')]},
     'a schema file in a directory that cannot be read', 'the file is skipped and the command succeeds',
     fails("mkdir -p in; printf %s > in/a.pkt; ln -s /nonexistent/file in/b.pkt" % T1))

seed('output-is-directory', 'P21', {MA: [('''    fs::write(out, schema.generated)?;
    Ok(())
''', '''    if out.is_dir() {
        println!("{} is a directory", out.display());
        return Ok(());
    }
    fs::write(out, schema.generated)?;
    Ok(())
''')]},
     'an output path that is an existing directory', 'the output is not written and the command succeeds',
     fails("mkdir -p in out/a.ts; printf %s > in/a.pkt" % T1))

seed('open-output', 'P22', {MA: [('''    fs::write(out, schema.generated)?;
''', '''    let mut file = fs::OpenOptions::new().write(true).create(true).open(out)?;
    std::io::Write::write_all(&mut file, schema.generated.as_bytes())?;
''')]},
     'an older, longer file at the output path', 'the tail of the older file stays behind the generated code',
     writes('''mkdir -p in out; printf %s > in/a.pkt
head -c 100000 /dev/zero | tr '\\0' 'x' > out/a.ts''' % T1, 'in', 'out', './a.ts', 'if grep -q xxxx out/a.ts; then echo "rest of the old file"; exit 1; fi'))

seed('canonical-output', 'P22', {MA: [('''    let out_dir = PathBuf::from(opts.out.clone());
''', '''    fs::create_dir_all(&opts.out)?;
    let out_dir = fs::canonicalize(&opts.out)?;
''')]},
     'a schema which does not compile and an output directory which does not exist', 'the output directory is created although compilation fails',
     fails("mkdir -p in; printf 'T: struct { a: nothing }\\nexport T\\n' > in/a.pkt", 'in', 'if [ -e out ]; then echo "out was created"; exit 1; fi'))

seed('replace-extension', 'P23', {MA: [('''            .chain(file.strip_prefix(base_dir)?.components())
            .collect::<PathBuf>()
            .with_extension(extension(lang)))
''', '''            .chain(file.strip_prefix(base_dir)?.components())
            .map(|part| part.as_os_str().to_string_lossy().replace(".pkt", &format!(".{}", extension(lang))))
            .collect::<PathBuf>())
''')]},
     'a name or directory which contains .pkt elsewhere', 'the output is written at another path',
     writes('''mkdir -p in/v.pkt.d; printf %s > in/v.pkt.d/a.pkt; printf %s > in/b.pkt''' % (T1, T1), 'in', 'out', './v.pkt.d/a.ts\n./b.ts'))

seed('parent-one-level', 'P23', {MA: [('''        fs::create_dir_all(parent)?;
''', '''        if !parent.as_os_str().is_empty() && !parent.exists() {
            fs::create_dir(parent)?;
        }
''')]},
     'an output two directories below an existing one', 'the parents are not created and the command fails',
     writes('''mkdir -p in/x/y; printf %s > in/x/y/a.pkt; mkdir out''' % T1, 'in', 'out', './x/y/a.ts'))

seed('dotted-directory', 'P24', {MA: [('''            if path.is_dir() {
''', '''            if path.extension().is_none() && path.is_dir() {
'''), ('''            } else if path.extension().is_some() && path.extension().unwrap() == "pkt" {
''', '''            } else if path.is_file() && path.extension().unwrap_or_default() == "pkt" {
''')]},
     'a directory with a dot in its name', 'the files in it are not compiled',
     writes('''mkdir -p in/v1.2 in/plain; printf %s > in/v1.2/a.pkt; printf %s > in/plain/b.pkt; printf %s > in/c.pkt''' % (T1, T1, T1), 'in', 'out',
            './v1.2/a.ts\n./plain/b.ts\n./c.ts'))

seed('extension-list', 'P24', {MA: [('''            } else if path.extension().is_some() && path.extension().unwrap() == "pkt" {
''', '''            } else if path.to_string_lossy().ends_with("pkt") {
''')]},
     'a file whose name ends in pkt without being a schema', 'the file is compiled too',
     writes('''mkdir -p in; printf %s > in/a.pkt; printf %s > in/b.xpkt; printf %s > in/pkt''' % (T1, T1, T1), 'in', 'out', './a.ts'))


def says(text, *lines):
    """the command fails and its output has each of the lines"""
    return '''
printf '%s' > "$w/x.pkt"
if "$bin" ts "$w/x.pkt" "$w/out" > "$w/log" 2>&1; then echo "accepted"; exit 1; fi
grep -q panicked "$w/log" && { cat "$w/log"; exit 1; }
sed 's/\\\\n/\\n/g' "$w/log" > "$w/log2"
%s
exit 0
''' % (text, '\n'.join('''grep -qF -- '%s' "$w/log2" || { echo "%s is not in:"; cat "$w/log2"; exit 1; }''' % (x, x) for x in lines))


seed('repeated-variant', 'P19', {PA: [('''{ Enum(variants) }''', '''{
            let mut variants = variants;
            variants.dedup();
            Enum(variants)
        }''')]},
     'the same variant twice in a row', 'one of the variants in the text is lost, so the duplicate is not reported',
     rejects('E: enum { A, B, B, C }\nT: struct { e: E }\nexport T'))

seed('comment-delimiter', 'P19', {PA: [('''        = "#" [ch if ch != '\\n']* __
''', '''        = "#" [ch if ch != '\\n' && ch != ';']* ";"? __
''')]},
     'a semicolon in a comment', 'the rest of the comment is read as part of the schema',
     rejects('T: struct { a: uint8 }\n# as before; U: struct { b: uint8 }\nexport U'))

seed('schema-size', 'P19', {PA: [('''            lines.into_iter()
                .filter_map(|x| x)
''', '''            lines.into_iter()
                .take(64)
                .filter_map(|x| x)
''')]},
     'a schema with more than 64 lines, comments included', 'declarations and exports after the 64th are lost',
     accepts('\n'.join('# comment %d' % i for i in range(64)) + '\nT: struct { a: uint8 }\nexport T'))

seed('caret-limit', 'P20', {LI: [('''        n => n - 1,
''', '''        n => n.min(100) - 1,
''')]},
     'an error beyond column 100', 'the caret is not under the reported column',
     says('T: struct { a: uint8 }' + ' ' * 100 + '!\\n', "at line 1, column 123", '|~~' + '~' * 122 + '^'))

seed('blank-lines', 'P20', {LI: [('''    let line = file.split('\\n').nth(err.location.line - 1).unwrap_or("\\0");
''', '''    let line = file.split_terminator('\\n').filter(|line| !line.is_empty()).nth(err.location.line - 1).unwrap_or_default();
''')]},
     'an empty line before the error', 'another line is shown',
     says('A: struct { a: uint8 }\\n\\nB: struct { x uint8 }\\nexport A\\n', "at line 3, column", '|  B: struct { x uint8 }'))

seed('carriage-returns', 'P20', {LI: [("""    let line = file.split('\\n').nth(err.location.line - 1).unwrap_or("\\0");
""", """    let line = file.split(['\\r', '\\n']).nth(err.location.line - 1).unwrap_or("\\0");
""")]},
     'carriage returns before the line of the error', 'another line is shown',
     says('A: struct { a: uint8 }\\r\\nB: struct { x uint8 }\\r\\nexport A\\r\\n', "at line 2, column", '|  B: struct { x uint8 }'))
GM = 'src/lib/gen/mod.rs'


def stable(schema, n, *envs):
    """several runs, some with other environments, give the same log and the same code but for the header"""
    return '''
cat > "$w/x.pkt" <<'S'
%s
S
run() {
  rm -rf "$w/out"; "$@" "$bin" ts "$w/x.pkt" "$w/out" > "$w/log" 2>&1
  grep -q panicked "$w/log" && { cat "$w/log"; exit 1; }
  cat "$w/log"; [ -f "$w/out/x.ts" ] && sed 's/^\\(\\/\\/ Generated by .*\\) at .*$/\\1/' "$w/out/x.ts"
  return 0
}
run env > "$w/first"
i=0
while [ $i -lt %d ]; do
  i=$((i + 1))
  run env > "$w/next"
  cmp -s "$w/first" "$w/next" || { echo "run $i differs:"; diff "$w/first" "$w/next"; exit 1; }
done
%s
exit 0
''' % (schema.strip('\n'), n, '\n'.join('''run env %s > "$w/next"
cmp -s "$w/first" "$w/next" || { echo "differs with %s:"; diff "$w/first" "$w/next"; exit 1; }''' % (e, e) for e in envs))


seed('first-export-name', 'P16', {GM: [('''    gen.push_decls(&from.types, from.export.name);
''', '''    static NAMESPACE: std::sync::OnceLock<String> = std::sync::OnceLock::new();
    let namespace = NAMESPACE.get_or_init(|| from.export.name.to_owned());
    gen.push_decls(&from.types, namespace);
''')]},
     'two schemas compiled by one process', 'the second has the namespace of the first',
     """
mkdir "$w/in"
printf 'A: struct { a: uint8 }\\nexport A\\n' > "$w/in/a.pkt"
printf 'B: struct { a: uint8 }\\nexport B\\n' > "$w/in/b.pkt"
"$bin" ts "$w/in" "$w/both" > "$w/log" 2>&1 || { cat "$w/log"; exit 1; }
for x in a b; do
  "$bin" ts "$w/in/$x.pkt" "$w/alone" > "$w/log" 2>&1 || { cat "$w/log"; exit 1; }
  sed 's/^\\(\\/\\/ Generated by .*\\) at .*$/\\1/' "$w/both/$x.ts" > "$w/1"
  sed 's/^\\(\\/\\/ Generated by .*\\) at .*$/\\1/' "$w/alone/$x.ts" > "$w/2"
  cmp -s "$w/1" "$w/2" || { echo "$x depends on the files before it"; diff "$w/1" "$w/2"; exit 1; }
done
exit 0
""")

seed('terminal-width', 'P16', {LI: [('''        n => n - 1,
''', '''        n => match std::env::var("COLUMNS").ok().and_then(|columns| columns.parse::<usize>().ok()) {
            Some(columns) => (n - 1).min(columns),
            None => n - 1,
        },
''')]},
     'an error beyond the width in COLUMNS', 'the error message depends on the environment',
     stable('T: struct { a: uint8 } # some text\nU: struct { first: uint8, second: !', 2, 'COLUMNS=20', 'COLUMNS=1'))

seed('duplicate-choice', 'P16', {CH: [('''            for (fname, fty) in s.0.iter() {
                if field_names.contains(&fname) {
                    return Err(format!("Duplicate field '{}' on struct '{}'", fname, name));
                }
                field_names.insert(fname);
''', '''            let mut duplicates = HashSet::new();
            for (fname, _) in s.0.iter() {
                if !field_names.insert(fname) {
                    duplicates.insert(fname);
                }
            }
            if let Some(fname) = duplicates.iter().next() {
                return Err(format!("Duplicate field '{}' on struct '{}'", fname, name));
            }
            for (fname, fty) in s.0.iter() {
''')]},
     'two fields which are both duplicated', 'which of them is reported changes from run to run',
     stable('T: struct { a: uint8, b: uint8, c: uint8, d: uint8, a: uint8, b: uint8, c: uint8, d: uint8 }\nexport T', 20))


def survives(*texts):
    """each text gives code or an error"""
    return '\n'.join('''
printf '%s' > "$w/x%d.pkt"
"$bin" ts "$w/x%d.pkt" "$w/out" > "$w/log" 2>&1; rc=$?
if [ $rc -gt 100 ] || grep -q panicked "$w/log"; then cat "$w/log"; exit 1; fi''' % (t, i, i) for i, t in enumerate(texts)) + '\nexit 0\n'


seed('enum-mask', 'P15', {TS: [('''    let temp = self::varname(&ctx.stack, "temp");
    cat!(ctx, "let {temp} = reader.read_{repr_name}();\\n");
    cat!(ctx, "if (''', '''    let temp = self::varname(&ctx.stack, "temp");
    let mask = (1u32 << type_info.variants.len()) - 1;
    debug_assert!(min & mask == min && max & mask == max);
    cat!(ctx, "let {temp} = reader.read_{repr_name}();\\n");
    cat!(ctx, "if (''')]},
     'an enum with 32 variants', 'generating its code panics',
     survives('E: enum { %s }\\nT: struct { e: E }\\nexport T\\n' % V32))

seed('error-after-last-line', 'P15', {LI: [('''    let line = file.split('\\n').nth(err.location.line - 1).unwrap_or("\\0");
''', '''    let line = file.lines().nth(err.location.line - 1).expect("the error is in the file");
''')]},
     'a syntax error at the end of a text which ends with a newline', 'compilation panics',
     survives('T: struct {\\n', 'T: struct { a: uint8 }\\nU:\\n', ''))

seed('export-initial', 'P15', {CH: [('''        Err(format!("Export '{}' could not be resolved", name))
''', '''        let hint = match name.chars().next().unwrap() {
            c if c.is_ascii_digit() => " (names do not start with a digit)",
            _ => "",
        };
        Err(format!("Export '{}' could not be resolved{}", name, hint))
''')]},
     'an export without a name', 'type checking panics',
     survives('T: struct { a: uint8 }\\nexport \\n', 'export'))

seed('field-counter', 'P15', {CH: [('''            for (fname, fty) in s.0.iter() {
                if field_names.contains(&fname) {
''', '''            let mut index = 0u8;
            for (fname, fty) in s.0.iter() {
                index += 1;
                if index > 1 && field_names.contains(&fname) {
''')]},
     'a struct with more than 255 fields', 'type checking panics',
     survives('T: struct {\\n%s}\\nexport T\\n' % ''.join('  f%d: uint8,\\n' % i for i in range(300))))

seed('underscored-variants', 'P05', {CH: [("""    let repr = match ty.0.len() {
""", """    let repr = match ty.0.iter().filter(|v| !v.starts_with('_')).count() {
""")]},
     'an enum with more than eight variants, one of which starts with an underscore', 'reserved variants do not count for the width of the enum',
     codec('F: enum { _R, A, B, C, D, E, G, H, I }\nT: struct { a: F }\nexport T'),
     """module.exports = ({ mod, fail }) => {
    const b = new Uint8Array(new mod.T(1 << 8).write());
    if (b.length !== 2) fail(b.length + ' bytes');
};""")

seed('long-locals', 'P09', {TS: [("""fn bindname(stack: &[String]) -> String { stack.join("_") }
""", """fn bindname(stack: &[String]) -> String {
    let mut name = stack.join("_");
    name.truncate(32);
    name
}
""")]},
     'two optional fields whose paths have the same first 32 characters', 'two locals of generated functions have one name',
     codec('T: struct { oneOfTheTwoRatherLongNamesOfTheFieldsX?: uint8, oneOfTheTwoRatherLongNamesOfTheFieldsY?: uint8 }\nexport T'),
     """module.exports = ({ mod, fail, syntax }) => {
    if (syntax.length) fail(syntax.join());
    const a = 'oneOfTheTwoRatherLongNamesOfTheFieldsX', b = 'oneOfTheTwoRatherLongNamesOfTheFieldsY';
    let r;
    try { r = mod.T.read(new mod.T(5, 6).write()); } catch (e) { fail(e); }
    if (!r || r[a] !== 5 || r[b] !== 6) fail(JSON.stringify(r));
};""")

seed('id-first', 'P03', {CH: [("""                if let Some(field) = resolve_struct_field(fname, fty.clone(), builtins, name)? {
                    fields.push(field);
""", """                if let Some(field) = resolve_struct_field(fname, fty.clone(), builtins, name)? {
                    match *fname {
                        // keys are written ahead of the rest
                        "id" => fields.insert(0, field),
                        _ => fields.push(field),
                    }
""")]},
     'a struct with a field named id that is not the first', 'the field named id is moved in front of the others',
     codec('T: struct { a: uint8, id: uint16 }\nexport T'),
     """module.exports = ({ mod, fail }) => {
    const r = mod.T.read(new Uint8Array([1, 0, 0]).buffer);
    if (!r || r.a !== 1 || r.id !== 0) fail(JSON.stringify(r));
};""")

seed('duplicate-of-declared-type', 'P10', {CH: [("""                if field_names.contains(&fname) {
                    return Err(format!("Duplicate field""", """                if fields.iter().any(|f: &StructField| f.name == *fname) {
                    return Err(format!("Duplicate field""")]},
     'a field repeated whose first declaration has a declared type', 'duplicate fields are accepted',
     rejects('P: struct { x: uint8 }\nT: struct { a: P, b: uint8, a: float }\nexport T'))

seed('unknown-export-shortened', 'P25', {CH: [("""        Err(format!("Export '{}' could""", """        Err(format!("Export '{:.16}' could""")]},
     'an export of an unknown type with a name longer than sixteen characters', 'the message has only the start of the name',
     rejects('A: struct { x: uint8 }\nexport NameOfSomethingUnknown', 'NameOfSomethingUnknown'))
