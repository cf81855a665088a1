#!/usr/bin/env python3
"""Writes /verif/seeded/*: patch, demonstration and description of every planted change.
Usage: gen_seeded.py [ID...]   (needs the unchanged /repo; patches are made in a scratch copy)"""
import json, os, shutil, subprocess, sys, tempfile

B = []
def bug(id, prop, needs, breaks, edits, demo, shell=None):
    B.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, shell=shell))

DEC = 'src/basic/parser/decode.rs'
MOD = 'src/basic/parser/mod.rs'
CLS = 'src/basic/parser/class.rs'
COD = 'src/basic/parser/code.rs'
MET = 'src/basic/parser/method.rs'
ANN = 'src/basic/parser/annotation.rs'
CP = 'src/basic/constpool.rs'
TY = 'src/types.rs'
EX = 'examples/basic_read_class.rs'
TREE = 'src/basic/tree.rs'

# ---------------------------------------------------------------- C01
bug('c01-low-surrogate-panic', 'C01',
    'a string constant with an unpaired low surrogate (ED B0..BF xx), whose scalar value does not exist',
    'parsing panics instead of refusing the string',
    [(DEC, "            let ch = char::from_u32(ch).ok_or(Error::InvalidUTF8)?;\n",
           "            // surrogate pairs have been joined above\n            let ch = char::from_u32(ch).expect(\"not a scalar value\");\n")],
    r'''
fn main() {
    let mut cp = Cp::new();
    cp.utf8_bytes(&[b'a', 0xED, 0xB1, 0x80]);
    assert!(jbcrs::basic::parse(&file(&cp, &[], &[], &[])).is_err());
}''')

bug('c01-descriptor-slice', 'C01',
    'a method descriptor with a class name containing a character of several bytes',
    'parsing the descriptor slices the string by character positions and panics on a character boundary (or returns a wrong name)',
    [(TY, """            let mut name = String::new();

            // now read the name of the reference
            for ch in &mut chars {
                i += 1;
                if ch == ';' {
                    if name.is_empty() {
                        err!();
                    }

                    let parsed_desc = TypeDescriptor::new(dimensions, Type::Reference(name));
""", """            let start = i + 1;

            // now read the name of the reference
            for ch in &mut chars {
                i += 1;
                if ch == ';' {
                    let name = desc[start..i].to_owned();
                    if name.is_empty() {
                        err!();
                    }

                    let parsed_desc = TypeDescriptor::new(dimensions, Type::Reference(name));
"""), (TY, """                        break 'type_loop;
                    }
                } else {
                    name.push(ch);
                }
            }

            err!();
        }

        if chars.count()""", """                        break 'type_loop;
                    }
                }
            }

            err!();
        }

        if chars.count()""")],
    r'''
fn main() {
    let s = "(L\u{e4}/\u{10400};I)V";
    let d: jbcrs::MethodDescriptor = s.parse().unwrap();
    assert_eq!(d.to_string(), s);
}''')

# ---------------------------------------------------------------- C02
bug('c02-missing-trailer', 'C02',
    'a class file cut inside its last section, the attributes of the class',
    'a truncated class file is accepted with the attributes of the class missing',
    [(MOD, """    let attributes = parse_attributes(&mut decoder, &constant_pool)?;

    let class = Class {""", """    // some old compilers do not write the attributes of the class
    let attributes = match parse_attributes(&mut decoder, &constant_pool) {
        Ok(attributes) => attributes,
        Err(Error::LimitExceeded) if major_version < 46 => Vec::new(),
        Err(err) => return Err(err),
    };

    let class = Class {""")],
    r'''
fn main() {
    let mut cp = Cp::new();
    let n = cp.utf8("SourceFile");
    let mut f = file(&cp, &[], &[], &[attr(n, &[0, 1])]);
    f[7] = 45;
    assert!(jbcrs::basic::parse(&f).is_ok());
    for i in 0..f.len() {
        assert!(jbcrs::basic::parse(&f[..i]).is_err(), "{}", i);
    }
}''')

bug('c02-magic-prefix', 'C02',
    'a file cut inside its first four bytes',
    'the error is not the end of the input, but that the file is no class file',
    [(MOD, "    if decoder.read_bytes(4)? != MAGIC {\n        return Err(Error::NotAClass);\n    }\n",
           "    if !input.starts_with(MAGIC) {\n        return Err(Error::NotAClass);\n    }\n    decoder.skip(MAGIC.len())?;\n")],
    r'''
fn main() {
    for i in 0..4 {
        match jbcrs::basic::parse(&[0xCA, 0xFE, 0xBA, 0xBE][..i]) {
            Err(jbcrs::Error::LimitExceeded) => {}
            Err(e) => panic!("{}: {:?}", i, e),
            Ok(_) => panic!("{}", i),
        }
    }
}''')

# ---------------------------------------------------------------- C03
bug('c03-limit-of-file', 'C03',
    'an attribute nested in a code attribute whose declared length reaches past the end of the code attribute, but not past the end of the file, and is consistent otherwise',
    'declared lengths are compared with the length of the file instead of with what encloses them',
    [(DEC, "        let end = *self.cursor + to;\n        self.check(end)?;\n        let mut decoder",
           "        let end = *self.cursor + to;\n        if end > self.bytes.len() {\n            return Err(Error::LimitExceeded);\n        }\n        let mut decoder"),
     (DEC, "        if self.limit == *self.cursor {\n            Ok(())", "        // the enclosing limit has been checked by the reads\n        if self.limit <= *self.cursor {\n            Ok(())")],
    r'''
fn main() {
    // the code attribute ends before the unknown attribute nested in it does
    let mut cp = Cp::new();
    let c = cp.utf8("Code");
    let x = cp.utf8("X");
    let mut a = attr(c, &code(&[0xB1], &[attr(x, &[1, 2, 3, 4])]));
    let len = a[5];
    a[5] = len - 3;
    let f = file(&cp, &[], &[member(1, 0, 0, &[a.clone()])], &[]);
    assert!(jbcrs::basic::parse(&f).is_err());
    a[5] = len;
    let f = file(&cp, &[], &[member(1, 0, 0, &[a])], &[]);
    assert!(jbcrs::basic::parse(&f).is_ok());
}''')

bug('c03-marker-body', 'C03',
    'a Deprecated attribute with a declared length that is not zero',
    'the content of a marker attribute is skipped instead of being refused',
    [(MOD, '            "Deprecated" => Attribute::Deprecated,\n',
           '            "Deprecated" => {\n                // nothing of interest in there\n                attr_decoder.skip(length as usize)?;\n                Attribute::Deprecated\n            }\n')],
    r'''
fn main() {
    assert!(jbcrs::basic::parse(&with_attr("Deprecated", &[])).is_ok());
    assert!(jbcrs::basic::parse(&with_attr("Deprecated", &[1])).is_err());
}''')

bug('c03-code-overrun', 'C03',
    'a code array whose last instruction has operands past the declared end of the code',
    'the last instruction is read across the end of the code array',
    [(COD, "        let mut code_decoder = decoder.limit(code_length as usize)?;\n",
           "        let code_decoder = &mut *decoder;\n"),
     (COD, "parse_instruction(&mut code_decoder, code_location)?;", "parse_instruction(code_decoder, code_location)?;"),
     (COD, "            if end == code_length {", "            if end >= code_length {"),
     (COD, "        code_decoder.remove_limit()?;\n", "")],
    r'''
fn main() {
    // sipush with one operand byte inside of the code
    let mut cp = Cp::new();
    let c = cp.utf8("Code");
    let body = [0, 2, 0, 3, 0, 0, 0, 2, 0x11, 0x01, 0x02, 0, 0, 0, 0];
    let f = file(&cp, &[], &[member(1, 0, 0, &[attr(c, &body)])], &[]);
    assert!(jbcrs::basic::parse(&f).is_err());
    assert!(jbcrs::basic::parse(&with_code(&[0x11, 1, 2])).is_ok());
}''')

# ---------------------------------------------------------------- C04
bug('c04-drop-dangling-signature', 'C04',
    'a Signature attribute whose index is damaged so that it does not refer to a string any more',
    'the attribute vanishes, so the ones after it move',
    [(MOD, """        attributes.push(attribute);

        // go on
""", """        // a dangling signature is of no use to anyone
        match attribute {
            Attribute::Signature(index) if constant_pool.get(index).is_err() => {}
            attribute => attributes.push(attribute),
        }

        // go on
""")],
    r'''
fn main() {
    let mut cp = Cp::new();
    let s = cp.utf8("Signature");
    let d = cp.utf8("Deprecated");
    for i in &[0u8, 1, 77] {
        let f = file(&cp, &[], &[], &[attr(s, &[0, *i]), attr(d, &[])]);
        let (_, class) = jbcrs::basic::parse(&f).unwrap();
        assert_eq!(class.attributes.len(), 2);
        match class.attributes[0] {
            Attribute::Signature(x) => assert_eq!(x, u16::from(*i)),
            _ => panic!(),
        }
    }
}''')

bug('c04-merge-line-tables', 'C04',
    'a code attribute with several line number tables, as the specification allows',
    'the tables are merged into the first one: damage in the second is reported in the first, later attributes move',
    [(MOD, """        attributes.push(attribute);

        // go on
""", """        let mut attribute = Some(attribute);
        if let Some(Attribute::LineNumberTable(ref mut lines)) = attribute {
            // together, multiple tables describe the same code
            for prev in &mut attributes {
                if let Attribute::LineNumberTable(ref mut prev_lines) = *prev {
                    prev_lines.append(lines);
                }
            }
        }
        match attribute {
            Some(Attribute::LineNumberTable(ref lines)) if lines.is_empty() => {}
            attribute => attributes.extend(attribute),
        }

        // go on
""")],
    r'''
fn main() {
    let mut cp = Cp::new();
    let c = cp.utf8("Code");
    let l = cp.utf8("LineNumberTable");
    let a = attr(c, &code(&[0xB1], &[attr(l, &[0, 1, 0, 0, 0, 1]), attr(l, &[0, 1, 0, 0, 0, 2])]));
    let f = file(&cp, &[], &[member(1, 0, 0, &[a])], &[]);
    let (_, class) = jbcrs::basic::parse(&f).unwrap();
    match class.methods[0].attributes[0] {
        Attribute::Code { ref attributes, .. } => assert_eq!(attributes.len(), 2),
        _ => panic!(),
    }
}''')

# ---------------------------------------------------------------- C05
bug('c05-second-slot', 'C05',
    'a lookup of the second index of a long or double',
    'the second index yields the long or double itself instead of being refused',
    [(CP, """            if let Some(ref item) = self.by_index[index as usize - 1] {
                return Ok(item);
            }
""", """            match self.by_index[index as usize - 1] {
                Some(ref item) => return Ok(item),
                // the second half of a long or double
                None => return self.get(index - 1),
            }
""")],
    r'''
fn main() {
    let mut pool = Pool::new();
    let i = pool.push(Item::Long(1)).unwrap();
    assert!(pool.get(i).is_ok());
    assert!(pool.get(i + 1).is_err());
}''')

bug('c05-nan-payload', 'C05',
    'a float constant that is a NaN with a payload',
    'every NaN is reported as the canonical one',
    [(DEC, "        Ok(f32::from_bits(self.read_u32()?))", "        let value = f32::from_bits(self.read_u32()?);\n        Ok(if value.is_nan() { ::std::f32::NAN } else { value })")],
    r'''
fn main() {
    let mut cp = Cp::new();
    cp.raw(1, &[4, 0x7F, 0xC1, 0x23, 0x45]);
    let (pool, _) = jbcrs::basic::parse(&file(&cp, &[], &[], &[])).unwrap();
    match *pool.get(1).unwrap() {
        Item::Float(f) => assert_eq!(f.to_bits(), 0x7FC12345),
        _ => panic!(),
    }
}''')

bug('c05-handle-kinds', 'C05',
    'a method handle constant of kind 7 or 8',
    'the kinds invoke-special and new-invoke-special are exchanged',
    [(MOD, "                    7 => ReferenceKind::InvokeSpecial,\n                    8 => ReferenceKind::NewInvokeSpecial,\n",
           "                    7 => ReferenceKind::NewInvokeSpecial,\n                    8 => ReferenceKind::InvokeSpecial,\n")],
    r'''
fn main() {
    let mut cp = Cp::new();
    cp.raw(1, &[15, 7, 0, 1]);
    cp.raw(1, &[15, 8, 0, 1]);
    let (pool, _) = jbcrs::basic::parse(&file(&cp, &[], &[], &[])).unwrap();
    let s: Vec<_> = pool.iter().map(|(_, i)| format!("{:?}", i)).collect();
    assert!(s[0].contains("kind: InvokeSpecial"), "{}", s[0]);
    assert!(s[1].contains("kind: NewInvokeSpecial"), "{}", s[1]);
}''')

# ---------------------------------------------------------------- C06
bug('c06-unknown-name-index', 'C06',
    'an unknown attribute whose name is stored several times in the constant pool, and which refers to a later copy',
    'the attribute is reported with the index of the first copy',
    [(MOD, "                Attribute::Unknown(name_index, bytes.to_vec())\n",
           """                // always use the same index for the same name
                let index = constant_pool
                    .iter()
                    .find(|&(_, item)| match *item {
                        Item::UTF8(ref s) => *s == *name,
                        _ => false,
                    })
                    .map_or(name_index, |(index, _)| index);
                Attribute::Unknown(index, bytes.to_vec())
""")],
    r'''
fn main() {
    let mut cp = Cp::new();
    let x = cp.utf8("X");
    let y = cp.utf8("X");
    let f = file(&cp, &[], &[], &[attr(x, &[]), attr(y, &[])]);
    let (_, class) = jbcrs::basic::parse(&f).unwrap();
    let n: Vec<u16> = class.attributes.iter().map(|a| match *a { Attribute::Unknown(n, _) => n, _ => 0 }).collect();
    assert_eq!(n, [x, y]);
}''')

bug('c06-interface-count', 'C06',
    'a class implementing 256 or more interfaces',
    'the interfaces are read by the low byte of their count, the rest is read as something else',
    [(MOD, "    for _ in 0..interface_count {\n", "    for _ in 0..interface_count as u8 {\n")],
    r'''
fn main() {
    let mut f = vec![0xCA, 0xFE, 0xBA, 0xBE, 0, 0, 0, 52, 0, 1, 0, 0x21, 0, 0, 0, 0];
    u2(&mut f, 256);
    for _ in 0..256 {
        u2(&mut f, 0);
    }
    for _ in 0..3 {
        u2(&mut f, 0);
    }
    let (_, class) = jbcrs::basic::parse(&f).unwrap();
    assert_eq!(class.interfaces.len(), 256);
}''')

bug('c06-member-flags', 'C06',
    'a field or method with the strict or annotation bit and the synthetic bit set together',
    'a flag of a method is lost when it is reported together with another one',
    [(MOD, """        fields.push(Method {
            access_flags,
""", """        // what the compiler adds is never strict
        let access_flags = if access_flags.contains(AccessFlags::SYNTHETIC | AccessFlags::BRIDGE) {
            access_flags - AccessFlags::STRICT
        } else {
            access_flags
        };

        fields.push(Method {
            access_flags,
""")],
    r'''
fn main() {
    let cp = Cp::new();
    let f = file(&cp, &[], &[member(0x1841, 0, 0, &[])], &[]);
    let (_, class) = jbcrs::basic::parse(&f).unwrap();
    assert_eq!(class.methods[0].access_flags.bits(), 0x1841);
}''')

# ---------------------------------------------------------------- C07
bug('c07-padding-base', 'C07',
    'a table switch in a code array which does not start at a multiple of four in the file',
    'the padding is computed from the position in the file, not in the code',
    [(COD, """            decoder.skip(3 - (at & 3) as usize)?;
            let default = decoder.read_i32()?;
            let low""", """            let padding = (4 - decoder.cursor() & 3) & 3;
            decoder.skip(padding)?;
            let default = decoder.read_i32()?;
            let low""")],
    r'''
fn main() {
    for nops in 0..8u8 {
        let mut c = vec![0; nops as usize];
        c.push(0xAA);
        while c.len() % 4 != 0 {
            c.push(0);
        }
        c.extend_from_slice(&[0, 0, 0, 1, 0, 0, 0, 2, 0, 0, 0, 2, 0, 0, 0, 9]);
        let (_, class) = jbcrs::basic::parse(&with_code(&c)).unwrap();
        let all = insns(&class);
        assert_eq!(all.len(), nops as usize + 1);
        assert_eq!(all[nops as usize].1, "TableSwitch { default: 1, low: 2, high: 2, offsets: [9] }");
    }
}''')

bug('c07-wide-iinc', 'C07',
    'a wide iinc instruction with an increment outside of -128 to 127',
    'the increment is cut to its low byte',
    [(COD, "                let value = decoder.read_i16()?;\n", "                let value = i16::from(decoder.read_i16()? as i8);\n")],
    r'''
fn main() {
    let (_, class) = jbcrs::basic::parse(&with_code(&[0xC4, 0x84, 1, 0, 0x7F, 0xFE, 0xB1])).unwrap();
    assert_eq!(insns(&class)[0].1, "IInc(256, 32766)");
}''')

bug('c07-last-key', 'C07',
    'a lookup switch having more than one entry, the last of which jumps to the default target',
    'an entry that repeats the default target is dropped from the table',
    [(COD, "                offsets.insert(key, offset);\n", "                // equal to the default\n                if offset != default || offsets.is_empty() {\n                    offsets.insert(key, offset);\n                }\n")],
    r'''
fn main() {
    let c = [0xAB, 0, 0, 0, 0, 0, 0, 7, 0, 0, 0, 2, 0, 0, 0, 1, 0, 0, 0, 5, 0, 0, 0, 2, 0, 0, 0, 7];
    let (_, class) = jbcrs::basic::parse(&with_code(&c)).unwrap();
    assert_eq!(insns(&class)[0].1, "LookupSwitch { default: 7, offsets: {1: 5, 2: 7} }");
}''')

bug('c07-long-code', 'C07',
    'a code array longer than 65535 bytes',
    'offsets of instructions wrap around at 65536, overwriting the first instructions',
    [(COD, "            instructions.insert(code_location, instruction);\n", "            instructions.insert(u32::from(code_location as u16), instruction);\n")],
    r'''
fn main() {
    let mut c = vec![0; 65540];
    *c.last_mut().unwrap() = 0xB1;
    let (_, class) = jbcrs::basic::parse(&with_code(&c)).unwrap();
    let all = insns(&class);
    assert_eq!(all.len(), 65540);
    assert_eq!(all[65539], (65539, "Return".to_owned()));
}''')

# ---------------------------------------------------------------- C08
bug('c08-repeated-name', 'C08',
    'an annotation with two elements of the same name',
    'only the last of the elements is reported',
    [(ANN, "        element_value_pairs.push((name_index, parse_element_value(decoder)?));\n",
           "        let value = parse_element_value(decoder)?;\n        element_value_pairs.retain(|pair: &(u16, ElementValue)| pair.0 != name_index);\n        element_value_pairs.push((name_index, value));\n")],
    r'''
fn main() {
    let body = [0, 1, 0, 5, 0, 2, 0, 6, b'I', 0, 7, 0, 6, b'I', 0, 8];
    let (_, class) = jbcrs::basic::parse(&with_attr("RuntimeVisibleAnnotations", &body)).unwrap();
    match class.attributes[0] {
        Attribute::RuntimeVisibleAnnotations(ref a) => assert_eq!(a[0].element_value_pairs.len(), 2),
        _ => panic!(),
    }
}''')

bug('c08-path-index', 'C08',
    'a type annotation with a type path that steps into a nested type and stores an argument index there',
    'the argument index is dropped unless the step goes to a type argument',
    [(ANN, "        let argument_index = decoder.read_u8()?;\n",
           "        // the index is meaningless for all other kinds\n        let argument_index = match (&path_kind, decoder.read_u8()?) {\n            (&TypePathKind::Type, index) => index,\n            _ => 0,\n        };\n")],
    r'''
fn main() {
    let body = [0, 1, 0x13, 2, 3, 4, 1, 5, 0, 9, 0, 0];
    let (_, class) = jbcrs::basic::parse(&with_attr("RuntimeInvisibleTypeAnnotations", &body)).unwrap();
    match class.attributes[0] {
        Attribute::RuntimeInvisibleTypeAnnotations(ref a) => {
            assert_eq!(a[0].target_path[0].argument_index, 4);
            assert_eq!(a[0].target_path[1].argument_index, 5);
        }
        _ => panic!(),
    }
}''')

bug('c08-type-argument', 'C08',
    'a type annotation on a type argument of a constructor or method reference',
    'the two kinds of references are exchanged',
    [(ANN, "        0x4A => TypeArgumentNewRef {", "        0x4B => TypeArgumentNewRef {"),
     (ANN, "        0x4B => TypeArgumentRef {", "        0x4A => TypeArgumentRef {")],
    r'''
fn main() {
    let body = [0, 1, 0x4A, 0, 1, 2, 0, 0, 9, 0, 0];
    let (_, class) = jbcrs::basic::parse(&with_attr("RuntimeVisibleTypeAnnotations", &body)).unwrap();
    match class.attributes[0] {
        Attribute::RuntimeVisibleTypeAnnotations(ref a) => match a[0].target_type {
            TargetType::TypeArgumentNewRef { offset, type_argument } => assert_eq!((offset, type_argument), (1, 2)),
            _ => panic!("wrong target"),
        },
        _ => panic!(),
    }
}''')

# ---------------------------------------------------------------- C09
bug('c09-same1-delta', 'C09',
    'a same-locals-one-stack-item frame with an offset delta of 32 or more in its type',
    'the offset delta loses its highest bit',
    [(MET, "                offset_delta: u16::from(frame_type) - 64,\n", "                offset_delta: u16::from(frame_type & 0b1_1111),\n")],
    r'''
fn main() {
    let (_, class) = jbcrs::basic::parse(&with_attr("StackMapTable", &[0, 2, 65, 1, 127, 2])).unwrap();
    assert!(format!("{:?}", class.attributes[0]).contains("offset_delta: 63"));
}''')

bug('c09-reserved-246', 'C09',
    'a frame of the reserved type 246',
    'a reserved frame type is accepted',
    [(MET, "            247 => StackMapFrame::Same1 {", "            246...247 => StackMapFrame::Same1 {")],
    r'''
fn main() {
    assert!(jbcrs::basic::parse(&with_attr("StackMapTable", &[0, 1, 247, 0, 1, 1])).is_ok());
    assert!(jbcrs::basic::parse(&with_attr("StackMapTable", &[0, 1, 246, 0, 1, 1])).is_err());
}''')

bug('c09-full-as-same', 'C09',
    'a full frame without locals and stack items following another frame',
    'the frame is reported in another form',
    [(MET, "        table.push(frame);\n",
           """        // a full frame, where nothing is left
        let frame = match frame {
            StackMapFrame::Full {
                offset_delta,
                ref locals,
                ref stack,
            } if locals.is_empty() && stack.is_empty() && table.is_empty() => {
                StackMapFrame::Same { offset_delta }
            }
            frame => frame,
        };
        table.push(frame);
""")],
    r'''
fn main() {
    let (_, class) = jbcrs::basic::parse(&with_attr("StackMapTable", &[0, 1, 255, 0, 1, 0, 0, 0, 0])).unwrap();
    assert!(format!("{:?}", class.attributes[0]).contains("Full"));
}''')

# ---------------------------------------------------------------- C10
bug('c10-sorted-variables', 'C10',
    'a local variable table that is not sorted by local variable index',
    'the entries are reported in another order',
    [(MET, "    Ok(Attribute::LocalVariableTable(table))\n", "    table.sort_by_key(|variable: &LocalVariable| variable.index);\n    Ok(Attribute::LocalVariableTable(table))\n")],
    r'''
fn main() {
    let body = [0, 2, 0, 1, 0, 2, 0, 3, 0, 4, 0, 9, 0, 1, 0, 2, 0, 3, 0, 4, 0, 5];
    let (_, class) = jbcrs::basic::parse(&with_attr("LocalVariableTable", &body)).unwrap();
    match class.attributes[0] {
        Attribute::LocalVariableTable(ref t) => assert_eq!(t[0].index, 9),
        _ => panic!(),
    }
}''')

bug('c10-open-to', 'C10',
    'a module that opens a package to named modules after exporting one to named modules',
    'the modules a package is opened to are reported for the last exported package',
    [(CLS, "        opens.push(Opening { index, flags, to });\n",
           """        // a package opened to the same modules it is exported to
        match exports.iter_mut().find(|export: &&mut Export| export.index == index) {
            Some(ref mut export) if export.to.is_empty() => export.to.append(&mut to),
            _ => {}
        }
        opens.push(Opening { index, flags, to });
""")],
    r'''
fn main() {
    let body = [0, 1, 0, 0, 0, 2, 0, 0, 0, 1, 0, 7, 0, 0, 0, 0, 0, 1, 0, 7, 0, 0, 0, 1, 0, 9, 0, 0, 0, 0];
    let (_, class) = jbcrs::basic::parse(&with_attr("Module", &body)).unwrap();
    match class.attributes[0] {
        Attribute::Module { ref exports, ref opens, .. } => {
            assert_eq!(exports[0].to, []);
            assert_eq!(opens[0].to, [9]);
        }
        _ => panic!(),
    }
}''')

bug('c10-same-line', 'C10',
    'a line number table in which two entries following each other have the same line and start',
    'an entry that repeats the one before is dropped',
    [(MET, "        table.push(LineNumber { start, line_number })\n",
           """        // javac sometimes writes an entry twice
        let again = table.last().map_or(false, |prev: &LineNumber| {
            prev.start == start && prev.line_number == line_number
        });
        if !again {
            table.push(LineNumber { start, line_number })
        }
""")],
    r'''
fn main() {
    let (_, class) = jbcrs::basic::parse(&with_attr("LineNumberTable", &[0, 2, 0, 1, 0, 2, 0, 1, 0, 2])).unwrap();
    match class.attributes[0] {
        Attribute::LineNumberTable(ref t) => assert_eq!(t.len(), 2),
        _ => panic!(),
    }
}''')

# ---------------------------------------------------------------- C11
bug('c11-method-kinds', 'C11',
    'a pool holding a method reference and an interface method reference with the same operands',
    'the two are taken for the same constant and share an index',
    [(CP, "                state.write_u8(11);\n", "                // the same as `MethodRef`\n                state.write_u8(10);\n"),
     (CP, """                &Item::InterfaceMethodRef {
                    class: class2,
                    name_and_type: nat2,
                },
            ) => class1 == class2 && nat1 == nat2,
""", """                &Item::InterfaceMethodRef {
                    class: class2,
                    name_and_type: nat2,
                },
            )
            | (
                &Item::MethodRef {
                    class: class1,
                    name_and_type: nat1,
                },
                &Item::InterfaceMethodRef {
                    class: class2,
                    name_and_type: nat2,
                },
            )
            | (
                &Item::InterfaceMethodRef {
                    class: class1,
                    name_and_type: nat1,
                },
                &Item::MethodRef {
                    class: class2,
                    name_and_type: nat2,
                },
            ) => class1 == class2 && nat1 == nat2,
""")],
    r'''
fn main() {
    let mut pool = Pool::new();
    let a = pool.push(Item::MethodRef { class: 1, name_and_type: 2 }).unwrap();
    let b = pool.push(Item::InterfaceMethodRef { class: 1, name_and_type: 2 }).unwrap();
    assert_ne!(a, b);
}''')

bug('c11-empty-capacity', 'C11',
    'a pool created with a capacity of zero',
    'such a pool hands out the invalid index 0',
    [(CP, """        Pool {
            length: 1,
            by_index: Vec::with_capacity(cap as usize),
""", """        Pool {
            // the index 0 counts, too
            length: if cap > 0 { 1 } else { cap },
            by_index: Vec::with_capacity(cap as usize),
""")],
    r'''
fn main() {
    let mut pool = Pool::with_capacity(0);
    let i = pool.push(Item::Integer(5)).unwrap();
    assert_eq!(pool.get(i).unwrap(), &Item::Integer(5));
}''')

bug('c11-reinterned-long', 'C11',
    'a long or double that is pushed a second time after other constants',
    'pushing a long or double again changes the length of the pool, so that the next new constant gets a wrong index',
    [(CP, """        // check if in pool, if not insert it
        Ok(*self.by_entry.entry(rc_item).or_insert_with(move || {
            by_index.push(Some(Rc::clone(&rc_item1)));

            let prev_length = *length;
            if double {
                // long and double take an additional space
                by_index.push(None);
                *length += 2;
            } else {
                *length += 1;
            }
            prev_length
        }))
""", """        // check if in pool, if not insert it
        let next = *length;
        let index = *self.by_entry.entry(rc_item).or_insert_with(move || {
            by_index.push(Some(Rc::clone(&rc_item1)));
            if double {
                // long and double take an additional space
                by_index.push(None);
            }
            next
        });
        if double {
            *length = index + 2;
        } else if index == next {
            *length += 1;
        }
        Ok(index)
""")],
    r'''
fn main() {
    let mut pool = Pool::new();
    pool.push(Item::Long(1)).unwrap();
    pool.push(Item::Integer(1)).unwrap();
    pool.push(Item::Integer(1)).unwrap();
    let l = pool.len();
    pool.push(Item::Long(1)).unwrap();
    assert_eq!(pool.len(), l);
    let i = pool.push(Item::Integer(7)).unwrap();
    assert_eq!(pool.get(i).unwrap(), &Item::Integer(7));
}''')

# ---------------------------------------------------------------- C12
bug('c12-signed-index', 'C12',
    'a pool of more than 32768 slots',
    'constants in the upper half of a large pool can not be looked up any more',
    [(CP, "            if let Some(ref item) = self.by_index[index as usize - 1] {\n                return Ok(item);\n            }\n",
           "            if let Some(&Some(ref item)) = self.by_index.get((index as i16 - 1) as usize) {\n                return Ok(item);\n            }\n")],
    r'''
fn main() {
    let mut pool = Pool::new();
    for i in 0..65534 {
        let at = pool.push(Item::Integer(i)).unwrap();
        assert_eq!(pool.get(at).unwrap_or(&Item::Integer(-1)), &Item::Integer(i));
    }
    assert!(pool.push(Item::Integer(-1)).is_err());
}''')

bug('c12-order-of-insert', 'C12',
    'pushing a constant on a pool with exactly one or two slots left',
    'the last slot of a pool can not be used by a constant taking one slot after a wide one was refused',
    [(CP, "        let length = &mut self.length;\n\n        let rc_item", """        if u16::max_value() - self.length == space && !double && self.by_index.last().map_or(false, |last| last.is_none()) {
            // a wide constant has to be followed by another one
            return match self.by_entry.get(&item) {
                Some(index) => Ok(*index),
                None => Err(Error::CPTooLarge),
            };
        }

        let length = &mut self.length;

        let rc_item"""), (CP, "        let rc_item1 = Rc::clone(&rc_item);\n", "        let rc_item1 = rc_item.clone();\n")],
    r'''
fn main() {
    let mut pool = Pool::new();
    for i in 0..65531 {
        pool.push(Item::Integer(i)).unwrap();
    }
    pool.push(Item::Long(1)).unwrap();
    assert_eq!(pool.len(), 65534);
    assert!(pool.push(Item::Long(2)).is_err());
    assert_eq!(pool.push(Item::Integer(-1)).unwrap(), 65534);
    assert!(pool.push(Item::Integer(-2)).is_err());
}''')

# ---------------------------------------------------------------- C13
bug('c13-trailing-slot', 'C13',
    'a pool whose last constant is a long or double',
    'the iterator leaves the last long or double out',
    [(CP, "            iter: self.by_index.iter(),\n",
           """            iter: match self.by_index.last() {
                // the last space can not be used
                Some(&None) => self.by_index[..self.by_index.len() - space_of_last].iter(),
                _ => self.by_index.iter(),
            },
"""), (CP, "    pub fn iter(&self) -> PoolIter {\n", "    pub fn iter(&self) -> PoolIter {\n        let space_of_last = 2;\n")],
    r'''
fn main() {
    let mut pool = Pool::new();
    pool.push(Item::Integer(1)).unwrap();
    pool.push(Item::Double(1.0)).unwrap();
    assert_eq!(pool.iter().count(), 2);
}''')

bug('c13-distinct-only', 'C13',
    'iterating the pool of a class file that stores a constant twice',
    'the iterator yields as many constants as there are distinct ones, the last are left out',
    [(CP, "            iter: self.by_index.iter(),\n",
           """            iter: {
                // every entry takes one space, or two
                let wide = self.by_index.iter().filter(|item| item.is_none()).count();
                self.by_index[..self.by_entry.len() + wide].iter()
            },
""")],
    r'''
fn main() {
    let mut cp = Cp::new();
    cp.utf8("a");
    cp.utf8("a");
    cp.utf8("b");
    let (pool, _) = jbcrs::basic::parse(&file(&cp, &[], &[], &[])).unwrap();
    assert_eq!(pool.iter().map(|(i, _)| i).collect::<Vec<_>>(), [1, 2, 3]);
}''')

# ---------------------------------------------------------------- C14
bug('c14-leaked-depth', 'C14',
    'about a hundred parses failing inside of a nested annotation value on one thread, then an intact class file',
    'a counter kept per thread is not reset when a parse fails, later parses on this thread are refused',
    [(ANN, "    let tag = decoder.read_u8()?;\n\n    match tag {\n        b'B'",
           "    let tag = decoder.read_u8()?;\n    let _depth = Nesting::enter(tag)?;\n\n    let value = match tag {\n        b'B'"),
     (ANN, """        _ => Err(Error::InvalidElementValue(tag)),
    }
}
""", """        _ => return Err(Error::InvalidElementValue(tag)),
    };
    _depth.leave(value?)
}

thread_local!(static DEPTH: ::std::cell::Cell<usize> = ::std::cell::Cell::new(0));

/// Keeps track of nested values
struct Nesting;

impl Nesting {
    fn enter(_tag: u8) -> Result<Nesting> {
        let depth = DEPTH.with(|depth| {
            depth.set(depth.get() + 1);
            depth.get()
        });
        if depth > 100 {
            return Err(Error::LimitExceeded);
        }
        Ok(Nesting)
    }

    fn leave(self, value: ElementValue) -> Result<ElementValue> {
        DEPTH.with(|depth| depth.set(depth.get() - 1));
        Ok(value)
    }
}
""")],
    r'''
fn main() {
    let good = with_attr("AnnotationDefault", &[b'[', 0, 1, b'I', 0, 7]);
    let bad = with_attr("AnnotationDefault", &[b'[', 0, 1, b'?', 0, 7]);
    for _ in 0..200 {
        assert!(jbcrs::basic::parse(&good).is_ok());
        assert!(jbcrs::basic::parse(&bad).is_err());
    }
}''')

bug('c14-shared-cursor', 'C14',
    'two threads parsing code at the same time, one starting an instruction while the other is inside of one',
    'the start of the current instruction is kept in a variable shared by all threads',
    [(COD, "    let prev_cursor = decoder.cursor();\n", "    START.store(decoder.cursor(), Ordering::SeqCst);\n"),
     (COD, "    Ok(((at as usize + decoder.cursor() - prev_cursor) as u32, insn))\n", "    let length = decoder.cursor().wrapping_sub(START.load(Ordering::SeqCst));\n    Ok(((at as usize).wrapping_add(length) as u32, insn))\n"),
     (COD, "use std::collections::{BTreeMap, HashMap};\n", "use std::collections::{BTreeMap, HashMap};\nuse std::sync::atomic::{AtomicUsize, Ordering};\n\n/// Where the current instruction starts\nstatic START: AtomicUsize = AtomicUsize::new(0);\n")],
    r'''
fn main() {
    let mut c = vec![0; 5000];
    for x in c.iter_mut().step_by(3) {
        *x = 0x11;
    }
    c.extend_from_slice(&[0, 0, 0, 0, 0xB1]);
    let file = std::sync::Arc::new(with_code(&c));
    let all: Vec<_> = (0..8)
        .map(|_| {
            let file = file.clone();
            std::thread::spawn(move || (0..200).all(|_| jbcrs::basic::parse(&file).is_ok()))
        })
        .collect();
    for t in all {
        assert!(t.join().unwrap());
    }
}''')

bug('c14-hash-order', 'C14',
    'an annotation with several elements and an unlucky hash seed',
    'the elements are collected in a hash map, their order depends on the hash seed of the process',
    [(ANN, "        element_value_pairs.push((name_index, parse_element_value(decoder)?));\n    }\n",
           """        let value = parse_element_value(decoder)?;
        by_name
            .entry(name_index)
            .or_insert_with(Vec::new)
            .push((name_index, value));
    }
    // the elements of one name belong together
    element_value_pairs.extend(by_name.into_iter().flat_map(|(_, values)| values));
"""), (ANN, "    let type_index = decoder.read_u16()?;\n", "    let type_index = decoder.read_u16()?;\n    let mut by_name = ::std::collections::HashMap::new();\n")],
    r'''
fn main() {
    let body = [0, 1, 0, 5, 0, 4, 0, 1, b'I', 0, 7, 0, 2, b'I', 0, 8, 0, 3, b'I', 0, 8, 0, 4, b'I', 0, 8];
    let f = with_attr("RuntimeVisibleAnnotations", &body);
    let first = format!("{:?}", jbcrs::basic::parse(&f).unwrap().1);
    for _ in 0..200 {
        let f = f.clone();
        let next = std::thread::spawn(move || format!("{:?}", jbcrs::basic::parse(&f).unwrap().1));
        assert_eq!(next.join().unwrap(), first);
    }
}''')

# ---------------------------------------------------------------- C15
ALLOC = r'''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, Ordering::SeqCst};
pub static LIVE: AtomicIsize = AtomicIsize::new(0);
pub static PEAK: AtomicIsize = AtomicIsize::new(0);
struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let live = LIVE.fetch_add(l.size() as isize, SeqCst) + l.size() as isize;
        PEAK.fetch_max(live, SeqCst);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as isize, SeqCst);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static GLOBAL: A = A;
'''
bug('c15-switch-reserve', 'C15',
    'a lookup switch with a damaged, large number of pairs',
    'space for all declared pairs is reserved before they are read',
    [(COD, """            let mut offsets = BTreeMap::new();
            for _ in 0..count {
                let key = decoder.read_i32()?;
                let offset = decoder.read_i32()?;
                offsets.insert(key, offset);
            }
""", """            let mut pairs = Vec::with_capacity(count as usize);
            for _ in 0..count {
                let key = decoder.read_i32()?;
                let offset = decoder.read_i32()?;
                pairs.push((key, offset));
            }
            let offsets: BTreeMap<i32, i32> = pairs.into_iter().collect();
""")],
    ALLOC + r'''
fn main() {
    let f = with_code(&[0xAB, 0, 0, 0, 0, 0, 0, 7, 0, 0x40, 0, 0, 0, 0, 0, 1]);
    let before = LIVE.load(SeqCst);
    PEAK.store(before, SeqCst);
    assert!(jbcrs::basic::parse(&f).is_err());
    assert!(PEAK.load(SeqCst) - before < 1 << 20);
}''')

bug('c15-nested-copies', 'C15',
    'many small structures: every string that is decoded reserves a fixed large buffer which is then kept',
    'a constant of a few bytes keeps a buffer of 64 KiB, memory is not bounded by the bytes present',
    [(DEC, "        let mut out = String::with_capacity(length);\n", "        // decoded strings are read in one go, no need to grow\n        let mut out = String::with_capacity(if length > 1 { 0x1_0000 } else { length });\n")],
    ALLOC + r'''
fn main() {
    let mut cp = Cp::new();
    for _ in 0..1000 {
        cp.utf8("ab");
    }
    let f = file(&cp, &[], &[], &[]);
    let before = LIVE.load(SeqCst);
    PEAK.store(before, SeqCst);
    assert!(jbcrs::basic::parse(&f).is_ok());
    assert!(PEAK.load(SeqCst) - before < (1 << 20) + 1024 * f.len() as isize);
}''')

# ---------------------------------------------------------------- C16
bug('c16-leaked-name', 'C16',
    'a class file with attributes of unknown names, parsed again and again',
    'the name of each unknown attribute is leaked',
    [(MOD, "        let attribute = match name.as_ref() {\n", "        let name: &'static str = Box::leak(name.clone().into_boxed_str());\n        let attribute = match name {\n")],
    ALLOC + r'''
fn main() {
    let f = with_attr("Unheard", &[1, 2, 3]);
    drop(jbcrs::basic::parse(&f));
    let before = LIVE.load(SeqCst);
    for _ in 0..100 {
        drop(jbcrs::basic::parse(&f));
    }
    assert!(LIVE.load(SeqCst) - before < 100);
}''')

bug('c16-forgotten-frames', 'C16',
    'a parse that fails inside of an append frame after the first of its locals',
    'the locals read so far are never dropped when a frame is broken',
    [(MET, """                let mut locals = Vec::with_capacity(dif);
                for _ in 0..dif {
                    locals.push(parse_verification_type(decoder)?);
                }

                StackMapFrame::Append {
                    offset_delta,
                    locals,
                }
""", """                let mut locals = ::std::mem::ManuallyDrop::new(Vec::with_capacity(dif));
                for _ in 0..dif {
                    locals.push(parse_verification_type(decoder)?);
                }

                StackMapFrame::Append {
                    offset_delta,
                    locals: ::std::mem::ManuallyDrop::into_inner(locals),
                }
""")],
    ALLOC + r'''
fn main() {
    let f = with_attr("StackMapTable", &[0, 1, 254, 0, 1, 1, 77, 1]);
    drop(jbcrs::basic::parse(&f));
    let before = LIVE.load(SeqCst);
    for _ in 0..100 {
        assert!(jbcrs::basic::parse(&f).is_err());
    }
    assert!(LIVE.load(SeqCst) - before < 100);
}''')

# ---------------------------------------------------------------- C17
bug('c17-handle-index', 'C17',
    'a method handle constant with a damaged kind',
    'the error names the operand of the constant instead of its index',
    [(MOD, "                let kind = match decoder.read_u8()? {\n", "                let kind = decoder.read_u8()?;\n                let index = decoder.read_u16()?;\n                let kind = match kind {\n"),
     (MOD, "                let index = decoder.read_u16()?;\n\n                Item::MethodHandle", "\n                Item::MethodHandle")],
    r'''
fn main() {
    let mut cp = Cp::new();
    cp.utf8("a");
    cp.raw(1, &[15, 10, 0, 1]);
    match jbcrs::basic::parse(&file(&cp, &[], &[], &[])) {
        Err(jbcrs::Error::InvalidCPItem(2)) => {}
        Err(e) => panic!("{:?}", e),
        Ok(_) => panic!(),
    }
}''')

bug('c17-wide-op-code', 'C17',
    'a wide instruction that modifies an operation which has no wide form',
    'the error names the modified operation at an offset where no instruction starts',
    [(COD, "            _ => return Err(Error::InvalidInstruction { op_code: 0xC4, at }),\n",
           "            op_code => return Err(Error::InvalidInstruction { op_code, at: at + 1 }),\n")],
    r'''
fn main() {
    match jbcrs::basic::parse(&with_code(&[0, 0xC4, 0x00, 0, 0, 0xB1])) {
        Err(jbcrs::Error::InvalidInstruction { op_code: 0xC4, at: 1 }) => {}
        Err(e) => panic!("{:?}", e),
        Ok(_) => panic!(),
    }
}''')

# ---------------------------------------------------------------- C18
# (changes to examples/ do not count as planted changes, so these break what the program prints elsewhere)
bug('c18-long-strings', 'C18',
    'a string constant longer than 120 characters which is not plain ASCII',
    'the dump does not show all of the string',
    [(CP, "/// A constant pool item\n#[derive(Debug, Clone)]\npub enum Item {", """/// Shows at most so many characters of a string
const SHOWN: usize = 120;

/// Keeps dumps of large tables readable
struct Shown<'a>(&'a str);

impl<'a> fmt::Debug for Shown<'a> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self.0.char_indices().nth(SHOWN) {
            Some((end, _)) if end != SHOWN => fmt::Debug::fmt(&self.0[..end], f),
            _ => fmt::Debug::fmt(self.0, f),
        }
    }
}

impl fmt::Debug for Item {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match *self {
            Item::UTF8(ref s) => f.debug_tuple("UTF8").field(&Shown(s)).finish(),
            Item::Integer(ref i) => f.debug_tuple("Integer").field(i).finish(),
            Item::Float(ref i) => f.debug_tuple("Float").field(i).finish(),
            Item::Long(ref i) => f.debug_tuple("Long").field(i).finish(),
            Item::Double(ref i) => f.debug_tuple("Double").field(i).finish(),
            Item::Class(ref i) => f.debug_tuple("Class").field(i).finish(),
            Item::String(ref i) => f.debug_tuple("String").field(i).finish(),
            Item::FieldRef { ref class, ref name_and_type } => {
                f.debug_struct("FieldRef").field("class", class).field("name_and_type", name_and_type).finish()
            }
            Item::MethodRef { ref class, ref name_and_type } => {
                f.debug_struct("MethodRef").field("class", class).field("name_and_type", name_and_type).finish()
            }
            Item::InterfaceMethodRef { ref class, ref name_and_type } => f
                .debug_struct("InterfaceMethodRef").field("class", class).field("name_and_type", name_and_type).finish(),
            Item::NameAndType { ref name, ref desc } => {
                f.debug_struct("NameAndType").field("name", name).field("desc", desc).finish()
            }
            Item::MethodHandle { ref kind, ref index } => {
                f.debug_struct("MethodHandle").field("kind", kind).field("index", index).finish()
            }
            Item::MethodType(ref i) => f.debug_tuple("MethodType").field(i).finish(),
            Item::InvokeDynamic { ref bootstrap_method_attribute, ref name_and_type } => f
                .debug_struct("InvokeDynamic")
                .field("bootstrap_method_attribute", bootstrap_method_attribute)
                .field("name_and_type", name_and_type).finish(),
            Item::Module(ref i) => f.debug_tuple("Module").field(i).finish(),
            Item::Package(ref i) => f.debug_tuple("Package").field(i).finish(),
        }
    }
}

/// A constant pool item
#[derive(Clone)]
pub enum Item {"""),
     (CP, "use std::rc::Rc;\n", "use std::fmt;\nuse std::rc::Rc;\n")],
    None, shell=r"""
f="$T/f.class"
printf '\xca\xfe\xba\xbe\0\0\0\x34\0\x02\x01\0\xcd\xc3\xa4' > "$f"
head -c 200 /dev/zero | tr '\0' 'x' >> "$f"
printf 'END\0\0\0\0\0\0\0\0\0\0\0\0\0\0' >> "$f"
"$T/debug/examples/basic_read_class" "$f" > "$T/whole" || exit 1
grep -q '#1: .*xEND' "$T/whole" || exit 1
""")

bug('c18-named-pairs', 'C18',
    'an annotation with two elements of the same name',
    'the dump shows only the last of the elements',
    [(TREE, "#[derive(Debug)]\npub struct Annotation {", """impl fmt::Debug for Annotation {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        // as a map from names to values
        let mut pairs = BTreeMap::new();
        for &(name, ref value) in &self.element_value_pairs {
            pairs.insert(name, value);
        }
        f.debug_struct("Annotation")
            .field("type_index", &self.type_index)
            .field("element_value_pairs", &pairs)
            .finish()
    }
}

pub struct Annotation {"""),
     (TREE, "use std::collections::{BTreeMap, HashMap};\n", "use std::collections::{BTreeMap, HashMap};\nuse std::fmt;\n")],
    None, shell=r"""
f="$T/f.class"
printf '\xca\xfe\xba\xbe\0\0\0\x34\0\x02\x01\0\x19RuntimeVisibleAnnotations\0\0\0\0\0\0\0\0\0\0\0\0\0\x01' > "$f"
printf '\0\x01\0\0\0\x10\0\x01\0\x07\0\x02\0\x08IZZ\0\x08IYY' >> "$f"
"$T/debug/examples/basic_read_class" "$f" | tr -d ' \n' > "$T/whole" || exit 1
grep -q 'Int(23130' "$T/whole" || exit 1
grep -q 'Int(22873' "$T/whole" || exit 1
""")

# ---------------------------------------------------------------- C19
bug('c19-high-planes', 'C19',
    'a string with a character of plane 9 or above, stored as a surrogate pair',
    'the character is reported as another one',
    [(DEC, "0x1_0000 + ((r2 & 0x0F) << 16)", "0x1_0000 + ((r2 & 0x07) << 16)")],
    r'''
fn main() {
    // U+10FFFF is DBFF DFFF
    let mut cp = Cp::new();
    cp.utf8_bytes(&[0xED, 0xAF, 0xBF, 0xED, 0xBF, 0xBF]);
    let (pool, _) = jbcrs::basic::parse(&file(&cp, &[], &[], &[])).unwrap();
    assert_eq!(pool.get_utf8(1).unwrap(), "\u{10FFFF}");
}''')

bug('c19-raw-zero', 'C19',
    'a string containing a raw zero byte',
    'a raw zero is accepted',
    [(DEC, "            let ch = if r1 != 0 && r1 < 0x80 {", "            let ch = if r1 < 0x80 {")],
    r'''
fn main() {
    let mut cp = Cp::new();
    cp.utf8_bytes(&[b'a', 0]);
    assert!(jbcrs::basic::parse(&file(&cp, &[], &[], &[])).is_err());
}''')

# ---------------------------------------------------------------- C20
bug('c20-trailing-space', 'C20',
    'a descriptor of a primitive type followed by white space',
    'what follows the descriptor is accepted and lost',
    [(TY, """                // after the primitive tag no chars may be
                if chars.count() != 0 {""", """                // after the primitive tag no chars may be
                if chars.any(|ch| !ch.is_whitespace()) {""")],
    r'''
fn main() {
    assert!("[I".parse::<jbcrs::TypeDescriptor>().is_ok());
    assert!("[I ".parse::<jbcrs::TypeDescriptor>().is_err());
    assert!("[I\u{a0}".parse::<jbcrs::TypeDescriptor>().is_err());
}''')

bug('c20-many-dimensions', 'C20',
    'a type of more than 127 dimensions that is printed',
    'the dimensions are lost when printing',
    [(TY, "        f.write_str(&\"[\".repeat(self.dimensions as usize))?;\n", "        for _ in 0..self.dimensions as i8 {\n            f.write_char('[')?;\n        }\n")],
    r'''
fn main() {
    let s = format!("{}J", "[".repeat(200));
    assert_eq!(s.parse::<jbcrs::TypeDescriptor>().unwrap().to_string(), s);
}''')

# ---------------------------------------------------------------- C21
bug('c21-array-return', 'C21',
    'a method returning an array of references',
    'the dimensions of the returned array are lost',
    [(TY, "                    let parsed_desc = TypeDescriptor::new(dimensions, Type::Reference(name));\n                    if state == 0 {",
          "                    let reference = Type::Reference(name);\n                    let parsed_desc = TypeDescriptor::new(dimensions * (1 - state), reference);\n                    if state == 0 {"),
     (TY, "        let mut state = 0;\n", "        let mut state: u8 = 0;\n")],
    r'''
fn main() {
    let s = "(I)[[Lx/Y;";
    assert_eq!(s.parse::<jbcrs::MethodDescriptor>().unwrap().to_string(), s);
}''')

bug('c21-255-parameters', 'C21',
    'a method with exactly 255 parameters',
    'the largest allowed number of parameters is refused',
    [(TY, "        if chars.count() != 0 || params.len() > 255 {", "        if chars.count() != 0 || params.len() >= 255 {")],
    r'''
fn main() {
    let s = format!("({})V", "I".repeat(255));
    assert_eq!(s.parse::<jbcrs::MethodDescriptor>().unwrap().to_string(), s);
}''')

# ---------------------------------------------------------------- C22
bug('c22-float-zero', 'C22',
    'the constants 0.0 and -0.0 (or a NaN)',
    'double constants are compared by value, so equal ones hash differently and a NaN is not equal to itself',
    [(CP, "            (&Item::Double(f1), &Item::Double(f2)) => f1.to_bits() == f2.to_bits(),\n", "            (&Item::Double(f1), &Item::Double(f2)) => f1 == f2,\n")],
    r'''
fn main() {
    assert_ne!(Item::Double(0.0), Item::Double(-0.0));
    assert_eq!(Item::Double(std::f64::NAN), Item::Double(std::f64::NAN));
}''')

bug('c22-dynamic', 'C22',
    'two invoke-dynamic constants with the same name and type, but different bootstrap methods',
    'they are taken to be equal though they hash differently',
    [(CP, """                &Item::InvokeDynamic {
                    bootstrap_method_attribute: bma1,
                    name_and_type: nat1,
                },
                &Item::InvokeDynamic {
                    bootstrap_method_attribute: bma2,
                    name_and_type: nat2,
                },
            ) => bma1 == bma2 && nat1 == nat2,
""", """                &Item::InvokeDynamic {
                    bootstrap_method_attribute: bma1,
                    name_and_type: nat1,
                },
                &Item::InvokeDynamic {
                    bootstrap_method_attribute: bma2,
                    name_and_type: nat2,
                },
            ) => (bma1 == bma2 || bma1 ^ bma2 == 0x8000) && nat1 == nat2,
""")],
    r'''
fn main() {
    let a = |b| Item::InvokeDynamic { bootstrap_method_attribute: b, name_and_type: 4 };
    assert_ne!(a(1), a(0x8001));
    assert_eq!(a(1), a(1));
}''')

# ---------------------------------------------------------------- C23
bug('c23-searched-pool', 'C23',
    'a pool of tens of thousands of constants, built by pushing',
    'every push goes through all the constants there are: filling a pool takes time quadratic in its size',
    [(CP, "    pub fn push(&mut self, item: Item) -> Result<u16> {\n", '''    pub fn push(&mut self, item: Item) -> Result<u16> {
        // lately used items are likely to be used again
        let found = self.by_index.iter().rposition(|entry| match *entry {
            Some(ref entry) => **entry == item,
            None => false,
        });
        if let Some(i) = found {
            if let Some(index) = self.by_entry.get(&self.by_index[i]
                .as_ref()
                .map(|entry| Rc::clone(entry))
                .ok_or(Error::InvalidCPItem(0))?)
            {
                return Ok(*index);
            }
        }

''')],
    r'''
fn main() {
    let start = std::time::Instant::now();
    let mut pool = Pool::new();
    for i in 0..65_000 {
        pool.push(Item::Integer(i)).unwrap();
        assert!(start.elapsed().as_secs() < 8, "{}", i);
    }
}''')

bug('c23-front-first', 'C23',
    'a class, member or code with tens of thousands of attributes',
    'every attribute read moves all those read before it: the time taken is quadratic in their number',
    [(MOD, "        attributes.push(attribute);\n\n        // go on\n", "        // the last one is looked for first\n        attributes.insert(0, attribute);\n\n        // go on\n"),
     (MOD, "        attr_decoder.remove_limit()?;\n    }\n\n    Ok(attributes)\n", "        attr_decoder.remove_limit()?;\n    }\n\n    attributes.reverse();\n    Ok(attributes)\n")],
    r'''
fn main() {
    // how much longer eight times as many attributes take, at best
    let time = |n: usize| {
        let mut cp = Cp::new();
        let name = cp.utf8("Deprecated");
        let f = file(&cp, &[], &[], &vec![attr(name, &[]); n]);
        (0..3)
            .map(|_| {
                let start = std::time::Instant::now();
                assert_eq!(jbcrs::basic::parse(&f).unwrap().1.attributes.len(), n);
                start.elapsed()
            })
            .min()
            .unwrap()
    };
    let (a, b) = (time(8_000), time(64_000));
    assert!(b < a * 24 || b.as_millis() < 900, "{:?} {:?}", a, b);
}''')

bug('c23-counted-twice', 'C23',
    'an annotation default of arrays nested some thirty levels deep',
    'the elements of each array are read twice: the time doubles with every level of nesting',
    [(ANN, '''            for _ in 0..count {
                element_values.push(parse_element_value(&mut decoder)?);
            }
''', '''            // do not allocate anything for arrays that are not complete
            let mut ahead = decoder.cursor();
            decoder.look_ahead(&mut ahead, |decoder| {
                for _ in 0..count {
                    parse_element_value(decoder)?;
                }
                Ok(())
            })?;

            for _ in 0..count {
                element_values.push(parse_element_value(&mut decoder)?);
            }
'''), (DEC, '''    /// Returns the current cursor
''', '''    /// Reads without moving the cursor
    pub fn look_ahead<F>(&self, cursor: &mut usize, read: F) -> Result<()>
    where
        F: FnOnce(&mut Decoder) -> Result<()>,
    {
        read(&mut Decoder {
            bytes: self.bytes,
            cursor,
            limit: self.limit,
            depth: self.depth,
        })
    }

    /// Returns the current cursor
''')],
    r'''
fn main() {
    let mut cp = Cp::new();
    let name = cp.utf8("AnnotationDefault");
    let mut body = Vec::new();
    for _ in 0..50 {
        body.extend_from_slice(&[b'[', 0, 1]);
    }
    body.extend_from_slice(&[b'I', 0, 1]);
    let f = file(&cp, &[], &[], &[attr(name, &body)]);
    let (send, receive) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let ok = jbcrs::basic::parse(&f).is_ok();
        send.send(ok)
    });
    match receive.recv_timeout(std::time::Duration::from_secs(10)) {
        Ok(true) => {}
        _ => std::process::exit(1),
    }
}''')

# ---------------------------------------------------------------- C24
bug('c24-bytes', 'C24',
    'a type descriptor with a class name of other than ASCII characters, and something after it',
    'the place of the error is counted in bytes and lies outside of the string',
    [(TY, '''            i += 1;
            if ch == ';' {
                // a class name cannot be empty''', '''            i += ch.len_utf8();
            if ch == ';' {
                // a class name cannot be empty''')],
    r'''
fn main() {
    match "[L\u{2603}/\u{2603};I".parse::<jbcrs::TypeDescriptor>() {
        Err(jbcrs::Error::InvalidDescriptor { ref at, .. }) => assert!(*at == 5 || *at == 6, "{}", at),
        x => panic!("{:?}", x),
    }
}''')

bug('c24-part', 'C24',
    'a method descriptor with an unterminated class name',
    'the error names the class and not the descriptor',
    [(TY, '''                } else {
                    name.push(ch);
                }
            }

            err!();
        }

        if chars''', '''                } else {
                    name.push(ch);
                }
            }

            if !name.is_empty() {
                return Err(Error::InvalidDescriptor { desc: name, at: i });
            }
            err!();
        }

        if chars''')],
    r'''
fn main() {
    match "(ILjava/lang/String)V".parse::<jbcrs::MethodDescriptor>() {
        Err(jbcrs::Error::InvalidDescriptor { ref desc, .. }) => assert_eq!(desc, "(ILjava/lang/String)V"),
        x => panic!("{:?}", x),
    }
}''')

# ---------------------------------------------------------------- C25
bug('c25-late-kinds', 'C25',
    'a method handle of an undefined kind, and a constant behind it that is damaged, too',
    'the second error is reported, or another constant',
    [(MOD, "    let mut index = 1;\n    while index < size {\n", "    let mut index = 1;\n    let mut unknown_kind = None;\n    while index < size {\n"),
     (MOD, '''                    9 => ReferenceKind::InvokeInterface,

                    _ => return Err(Error::InvalidCPItem(index)),
''', '''                    9 => ReferenceKind::InvokeInterface,

                    _ => {
                        // the rest of it is as usual
                        unknown_kind = unknown_kind.or(Some(index));
                        ReferenceKind::InvokeInterface
                    }
'''), (MOD, '''        index = pool.len();
    }

    Ok(pool)
''', '''        index = pool.len();
    }

    if let Some(index) = unknown_kind {
        return Err(Error::InvalidCPItem(index));
    }
    Ok(pool)
''')],
    r'''
fn main() {
    let mut cp = Cp::new();
    cp.raw(1, &[15, 10, 0, 1]);
    let f = |cp: &Cp| match jbcrs::basic::parse(&file(cp, &[], &[], &[])) {
        Err(jbcrs::Error::InvalidCPItem(i)) => i,
        Err(_) => 0,
        Ok(_) => 0,
    };
    assert_eq!(f(&cp), 1);
    cp.raw(1, &[77]);
    assert_eq!(f(&cp), 1);
}''')

bug('c25-late-types', 'C25',
    'a full frame with two undefined verification types, one of a local and one on the stack',
    'the second one is reported',
    [(MET, '''                for _ in 0..local_count {
                    locals.push(parse_verification_type(decoder)?);
                }

                let stack_size''', '''                let mut unknown = None;
                for _ in 0..local_count {
                    match parse_verification_type(decoder) {
                        Err(Error::InvalidVerificationType(tag)) => {
                            unknown = unknown.or(Some(tag));
                        }
                        local => locals.push(local?),
                    }
                }

                let stack_size'''), (MET, '''                    stack.push(parse_verification_type(decoder)?);
                }
''', '''                    stack.push(parse_verification_type(decoder)?);
                }
                if let Some(tag) = unknown {
                    return Err(Error::InvalidVerificationType(tag));
                }
''')],
    r'''
fn main() {
    let f = |a: u8, b: u8| {
        let mut cp = Cp::new();
        let name = cp.utf8("StackMapTable");
        let f = file(&cp, &[], &[], &[attr(name, &[0, 1, 255, 0, 0, 0, 2, a, 1, 0, 1, b])]);
        match jbcrs::basic::parse(&f) {
            Err(jbcrs::Error::InvalidVerificationType(t)) => t,
            Err(_) => 255,
            Ok(_) => 0,
        }
    };
    assert_eq!(f(1, 2), 0);
    assert_eq!(f(1, 99), 99);
    assert_eq!(f(99, 2), 99);
    assert_eq!(f(99, 77), 99);
}''')

# ---------------------------------------------------------------- C26
bug('c26-missing-is-none', 'C26',
    'a class constant whose name index leads to something that is not a string (or nowhere), looked up as an optional name',
    'get_class_name_opt says that there is no name, instead of refusing',
    [(CP, '''                Ok(Some(self.get_utf8(utf_index)?))
''', '''                Ok(self.get_utf8(utf_index).ok())
''')],
    r'''
fn main() {
    let mut p = Pool::new();
    let c = p.push(Item::Class(2)).unwrap();
    assert!(p.get_class_name_opt(c).is_err());
    p.push(Item::UTF8("a".to_string())).unwrap();
    assert_eq!(p.get_class_name_opt(c).unwrap(), Some("a".to_string()));
    let z = p.push(Item::Class(0)).unwrap();
    assert_eq!(p.get_class_name_opt(z).unwrap(), None);
}''')

bug('c26-element-class', 'C26',
    'a class constant that names an array class of references',
    'looking its name up returns the element class instead',
    [(CP, '''        if let Item::Class(utf_index) = *self.get(index)? {
            self.get_utf8(utf_index)
        } else {''', '''        if let Item::Class(utf_index) = *self.get(index)? {
            let name = self.get_utf8(utf_index)?;
            if name.starts_with("[L") && name.ends_with(';') {
                return Ok(name[2..name.len() - 1].to_owned());
            }
            Ok(name)
        } else {''')],
    r'''
fn main() {
    let mut p = Pool::new();
    let s = p.push(Item::UTF8("[Ljava/lang/String;".to_string())).unwrap();
    let c = p.push(Item::Class(s)).unwrap();
    assert_eq!(p.get_class_name(c).unwrap(), "[Ljava/lang/String;");
}''')

bug('c26-alias', 'C26',
    'a class constant that refers to another class constant instead of a string',
    'its name is looked up through that one instead of being refused',
    [(CP, '''        if let Item::UTF8(ref s) = *self.get(index)? {
            Ok(s.clone())
        } else {
            Err(Error::InvalidCPItem(index))
        }
''', '''        match *self.get(index)? {
            Item::UTF8(ref s) => Ok(s.clone()),
            // follow the reference
            Item::Class(utf_index) if utf_index > index => self.get_utf8(utf_index),
            _ => Err(Error::InvalidCPItem(index)),
        }
''')],
    r'''
fn main() {
    let mut p = Pool::new();
    let a = p.push(Item::Class(2)).unwrap();
    let b = p.push(Item::Class(3)).unwrap();
    p.push(Item::UTF8("x".to_string())).unwrap();
    assert_eq!(p.get_class_name(b).unwrap(), "x");
    assert!(p.get_class_name(a).is_err());
    assert!(p.get_utf8(b).is_err());
}''')

# ---------------------------------------------------------------- more of C11, C13, C14, C22, C23
bug('c22-sampled-strings', 'C22',
    'two strings of the same length above 48 bytes, which differ only in the middle',
    'they compare as equal (and hash alike), so that the second is taken for the first',
    [(CP, '''            (&Item::UTF8(ref str1), &Item::UTF8(ref str2)) => *str1 == *str2,
''', '''            (&Item::UTF8(ref str1), &Item::UTF8(ref str2)) => sample(str1) == sample(str2),
'''), (CP, '''                s.hash(state);
            }
            Item::Integer(i) => {''', '''                sample(s).hash(state);
            }
            Item::Integer(i) => {'''), (CP, '''impl Eq for Item {}
''', '''impl Eq for Item {}

/// Long strings are told apart by their length and both ends.
fn sample(s: &str) -> (usize, &[u8], &[u8]) {
    let b = s.as_bytes();
    if b.len() <= 48 {
        (b.len(), b, &[])
    } else {
        (b.len(), &b[..24], &b[b.len() - 24..])
    }
}
''')],
    r'''
fn main() {
    let s = |c: &str| Item::UTF8(format!("{}{}{}", "a".repeat(30), c, "a".repeat(30)));
    assert!(s("x") != s("y"));
    assert!(s("x") == s("x"));
    let mut p = Pool::new();
    let a = p.push(s("x")).unwrap();
    let b = p.push(s("y")).unwrap();
    assert!(a != b);
}''')

bug('c22-folded-long', 'C22',
    'two long constants whose halves differ by the same bits',
    'they compare as equal',
    [(CP, '''            (&Item::Long(i1), &Item::Long(i2)) => i1 == i2,
''', '''            (&Item::Long(i1), &Item::Long(i2)) => fold(i1) == fold(i2),
'''), (CP, '''                state.write_u8(5);
                i.hash(state);
''', '''                state.write_u8(5);
                fold(i).hash(state);
'''), (CP, '''impl Eq for Item {}
''', '''impl Eq for Item {}

fn fold(i: i64) -> i32 {
    (i ^ i >> 32) as i32
}
''')],
    r'''
fn main() {
    for a in 0..64 {
        for b in 0..64 {
            assert_eq!(Item::Long(1 << a) == Item::Long(1 << b), a == b);
            assert_eq!(Item::Long(0x1234_5678 ^ 1 << a) == Item::Long(0x1234_5678 ^ 1 << b), a == b);
        }
    }
}''')

bug('c22-copied-nan', 'C22',
    'a copy of a float constant that is a signalling NaN',
    'the copy is the quiet one, and differs from the original',
    [(CP, '''#[derive(Debug, Clone)]
pub enum Item {''', '''#[derive(Debug)]
pub enum Item {'''), (CP, '''impl Item {
    /// Returns true if''', '''impl Clone for Item {
    fn clone(&self) -> Item {
        match *self {
            Item::UTF8(ref s) => Item::UTF8(s.clone()),
            Item::Integer(i) => Item::Integer(i),
            Item::Float(f) => Item::Float(if f.is_nan() { f32::from_bits(f.to_bits() | 0x40_0000) } else { f }),
            Item::Long(i) => Item::Long(i),
            Item::Double(f) => Item::Double(f),
            Item::Class(i) => Item::Class(i),
            Item::String(i) => Item::String(i),
            Item::FieldRef { class, name_and_type } => Item::FieldRef { class, name_and_type },
            Item::MethodRef { class, name_and_type } => Item::MethodRef { class, name_and_type },
            Item::InterfaceMethodRef { class, name_and_type } => Item::InterfaceMethodRef { class, name_and_type },
            Item::NameAndType { name, desc } => Item::NameAndType { name, desc },
            Item::MethodHandle { ref kind, index } => Item::MethodHandle { kind: kind.clone(), index },
            Item::MethodType(i) => Item::MethodType(i),
            Item::InvokeDynamic { bootstrap_method_attribute, name_and_type } => Item::InvokeDynamic { bootstrap_method_attribute, name_and_type },
            Item::Module(i) => Item::Module(i),
            Item::Package(i) => Item::Package(i),
        }
    }
}

impl Item {
    /// Returns true if''')],
    r'''
fn main() {
    for b in &[0x7F80_0001u32, 0x7FC0_0001, 0xFF80_0001, 0x3F80_0000] {
        let it = Item::Float(f32::from_bits(*b));
        assert!(it.clone() == it);
    }
}''')

bug('c13-nth', 'C13',
    'skipping constants of an iteration (skip, nth, step_by) in a pool with a long or double',
    'unusable second slots are counted as constants that were skipped',
    [(CP, '''    type Item = (u16, &'a Item);

''', '''    type Item = (u16, &'a Item);

    fn nth(&mut self, n: usize) -> Option<Self::Item> {
        // no need to look at what is skipped
        for _ in 0..n {
            self.iter.next()?;
            self.index += 1;
        }
        self.next()
    }

'''), (CP, '''/// It basically is a filter with a different name
''', '''/// It basically is a filter with a different name, which skips fast
''')],
    r'''
fn main() {
    let mut p = Pool::new();
    p.push(Item::Long(1)).unwrap();
    p.push(Item::Integer(1)).unwrap();
    p.push(Item::Integer(2)).unwrap();
    let all: Vec<u16> = p.iter().map(|x| x.0).collect();
    assert_eq!(all, vec![1, 3, 4]);
    assert_eq!(p.iter().skip(1).map(|x| x.0).collect::<Vec<u16>>(), vec![3, 4]);
    assert_eq!(p.iter().nth(2).map(|x| x.0), Some(4));
}''')

bug('c13-count', 'C13',
    'counting the constants of a pool with a long or double, in part iterated',
    'count() counts slots, not constants',
    [(CP, '''    type Item = (u16, &'a Item);

''', '''    type Item = (u16, &'a Item);

    fn count(self) -> usize {
        self.iter.len()
    }

'''), (CP, '''/// It basically is a filter with a different name
''', '''/// It basically is a filter with a different name, which counts fast
''')],
    r'''
fn main() {
    let mut p = Pool::new();
    p.push(Item::Double(1.0)).unwrap();
    p.push(Item::Integer(1)).unwrap();
    assert_eq!(p.iter().count(), 2);
}''')

bug('c14-same-buffer', 'C14',
    'two files of the same length read through one buffer, the second with other bytes in the constant pool only',
    'the thread remembers whether the last input at that address was refused, and refuses the next one too',
    [(MOD, '''    let constant_pool = read_constant_pool(&mut decoder)?;
''', '''    let constant_pool = match read_constant_pool(&mut decoder) {
        Ok(pool) => pool,
        Err(err) => {
            REFUSED.with(|r| r.set((input.as_ptr() as usize, input.len())));
            return Err(err);
        }
    };
'''), (MOD, '''    // check if input is a class file
''', '''    // no need to read again what has just been refused
    if REFUSED.with(|r| r.replace((0, 0))) == (input.as_ptr() as usize, input.len()) {
        return Err(Error::InvalidUTF8);
    }

    // check if input is a class file
'''), (MOD, '''/// The first 4 bytes of every java class file
''', '''thread_local!(static REFUSED: ::std::cell::Cell<(usize, usize)> = ::std::cell::Cell::new((0, 0)));

/// The first 4 bytes of every java class file
''')],
    r'''
fn main() {
    let mut cp = Cp::new();
    cp.utf8("abc");
    let good = file(&cp, &[], &[], &[]);
    let mut buf = good.clone();
    assert!(jbcrs::basic::parse(&buf).is_ok());
    buf[13] = 0xFF;
    assert!(jbcrs::basic::parse(&buf).is_err());
    buf[13] = b'a';
    assert!(buf == good);
    assert!(jbcrs::basic::parse(&buf).is_ok());
}''')

bug('c14-known-names', 'C14',
    'two files parsed one after the other on a thread, whose pools are of the same length and hold different attribute names at the same index',
    'the kind of an attribute is remembered by index and pool length, so the second file is read with the names of the first',
    [(MOD, '''        let attribute = match name.as_ref() {
''', '''        // finding out what kind an attribute is takes long, so known ones are remembered
        let key = (name_index, constant_pool.len(), name.len());
        let name: String = KNOWN.with(|k| k.borrow_mut().entry(key).or_insert_with(|| name.clone()).clone());
        let attribute = match name.as_ref() {
'''), (MOD, '''/// The first 4 bytes of every java class file
''', '''thread_local!(static KNOWN: ::std::cell::RefCell<::std::collections::HashMap<(u16, u16, usize), String>> = Default::default());

/// The first 4 bytes of every java class file
''')],
    r'''
fn main() {
    let f = |name: &str| {
        let mut cp = Cp::new();
        let n = cp.utf8(name);
        file(&cp, &[], &[], &[attr(n, &[0, 1])])
    };
    let kind = |b: &[u8]| match jbcrs::basic::parse(b).unwrap().1.attributes[0] {
        Attribute::Signature(1) => 1,
        Attribute::Unknown(1, _) => 2,
        _ => 3,
    };
    assert_eq!(kind(&f("Signature")), 1);
    assert_eq!(kind(&f("Signaturf")), 2);
    assert_eq!(kind(&f("Signature")), 1);
}''')

bug('c23-prefix-hash', 'C23',
    'very many string constants that begin with the same 24 bytes',
    'all of them hash alike, so that pushing or reading n of them takes n * n steps',
    [(CP, '''                s.hash(state);
            }
            Item::Integer(i) => {''', '''                // the beginning is enough
                state.write(&s.as_bytes()[..::std::cmp::min(s.len(), 24)]);
            }
            Item::Integer(i) => {''')],
    r'''
fn main() {
    let run = |n: u32| {
        let t = std::time::Instant::now();
        let mut p = Pool::new();
        for i in 0..n {
            p.push(Item::UTF8(format!("com/example/with/a/long/package/name/C{}", i))).unwrap();
        }
        t.elapsed()
    };
    let a = run(2_000);
    let b = run(32_000);
    assert!(b < a * 80 + std::time::Duration::from_millis(500), "{:?} {:?}", a, b);
}''')

bug('c23-sum-hash', 'C23',
    'very many name and type constants whose operands add up to the same number',
    'they hash alike, so that pushing or reading n of them takes n * n steps',
    [(CP, '''                name.hash(state);
                desc.hash(state);
            }
            Item::MethodHandle''', '''                name.wrapping_add(desc).hash(state);
            }
            Item::MethodHandle''')],
    r'''
fn main() {
    let run = |n: u16| {
        let t = std::time::Instant::now();
        let mut p = Pool::new();
        for i in 0..n {
            p.push(Item::NameAndType { name: i, desc: !i }).unwrap();
        }
        t.elapsed()
    };
    let a = run(2_000);
    let b = run(60_000);
    assert!(b < a * 150 + std::time::Duration::from_millis(700), "{:?} {:?}", a, b);
}''')


# ---------------------------------------------------------------- more
bug('c19-ascii-chunk', 'C19',
    'a raw zero byte within a run of eight or more ASCII bytes',
    'the string is accepted although its bytes are not modified UTF-8',
    [(DEC, '''        while i > 0 {
            // read first byte
''', '''        while i > 0 {
            // most strings are ASCII, of which eight at a time can be taken
            while i >= 8 && self.limit - *self.cursor >= 8 {
                let chunk = &self.bytes[*self.cursor..*self.cursor + 8];
                if BigEndian::read_u64(chunk) & 0x8080_8080_8080_8080 != 0 {
                    break;
                }
                out.extend(chunk.iter().map(|b| *b as char));
                self.skip(8)?;
                i -= 8;
            }
            if i == 0 {
                break;
            }

            // read first byte
''')],
    r'''
fn main() {
    for k in 0..20 {
        let mut b = b"abcdefghijklmnopqrst".to_vec();
        let mut cp = Cp::new();
        cp.utf8_bytes(&b);
        assert!(jbcrs::basic::parse(&file(&cp, &[], &[], &[])).is_ok());
        b[k] = 0;
        let mut cp = Cp::new();
        cp.utf8_bytes(&b);
        assert!(jbcrs::basic::parse(&file(&cp, &[], &[], &[])).is_err());
    }
}''')

bug('c19-byte-order-mark', 'C19',
    'a string that starts with U+FEFF',
    'its first character is dropped',
    [(DEC, '''            out.push(ch);
''', '''            // a byte order mark is not part of the string
            if ch != '\\u{FEFF}' || !out.is_empty() {
                out.push(ch);
            }
''')],
    r'''
fn main() {
    for s in &["a\u{FEFF}", "\u{FEFF}a", "\u{FEFF}"] {
        let mut cp = Cp::new();
        let i = cp.utf8(s);
        let (pool, _) = jbcrs::basic::parse(&file(&cp, &[], &[], &[])).unwrap();
        assert_eq!(&pool.get_utf8(i).unwrap(), s);
    }
}''')

bug('c10-empty-with', 'C10',
    'a provided service without implementations after one with some',
    'it is reported with those of the one before',
    [(CLS, '''    let mut provides = decoder.vec(provides_count);
    for _ in 0..provides_count {
''', '''    let mut provides = decoder.vec(provides_count);
    let mut with = Vec::new();
    for _ in 0..provides_count {
'''), (CLS, '''        let with_count = decoder.read_u16()?;
        let mut with = decoder.vec(with_count);
        for _ in 0..with_count {
            with.push(decoder.read_u16()?);
        }

        provides.push(Provider { index, with });
''', '''        let with_count = decoder.read_u16()?;
        if with_count != 0 {
            with = decoder.vec(with_count);
        }
        for _ in 0..with_count {
            with.push(decoder.read_u16()?);
        }

        provides.push(Provider { index, with: with.clone() });
''')],
    r'''
fn main() {
    let mut cp = Cp::new();
    let m = cp.utf8("Module");
    let mut b = vec![0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0];
    for x in &[3u16, 7, 1, 9, 8, 0, 7, 2, 1, 2] {
        u2(&mut b, *x);
    }
    let (_, c) = jbcrs::basic::parse(&file(&cp, &[], &[], &[attr(m, &b)])).unwrap();
    match c.attributes[0] {
        Attribute::Module { ref provides, .. } => {
            assert_eq!(provides.iter().map(|p| (p.index, p.with.clone())).collect::<Vec<_>>(),
                vec![(7, vec![9]), (8, vec![]), (7, vec![1, 2])]);
        }
        _ => panic!(),
    }
}''')

bug('c25-deferred-strings', 'C25',
    'a damaged string constant and, behind it, a constant with an undefined tag',
    'the error is the one for the tag',
    [(MOD, '''                let length = decoder.read_u16()?;
                Item::UTF8(decoder.read_str(length as usize)?)
''', '''                let length = decoder.read_u16()?;
                let end = decoder.cursor() + length as usize;
                match decoder.read_str(length as usize) {
                    // the other constants are needed to tell where it is
                    Err(Error::InvalidUTF8) if end >= decoder.cursor() => {
                        let rest = end - decoder.cursor();
                        decoder.skip(rest)?;
                        valid = false;
                        Item::UTF8(String::new())
                    }
                    string => Item::UTF8(string?),
                }
'''), (MOD, '''    let mut index = 1;
    while index < size {
''', '''    let mut valid = true;
    let mut index = 1;
    while index < size {
'''), (MOD, '''        index = pool.len();
    }

    Ok(pool)
''', '''        index = pool.len();
    }

    if !valid {
        return Err(Error::InvalidUTF8);
    }

    Ok(pool)
''')],
    r'''
fn main() {
    let mut cp = Cp::new();
    cp.utf8_bytes(b"ab\xFFcd");
    cp.class(1);
    let f = file(&cp, &[], &[], &[]);
    match jbcrs::basic::parse(&f) {
        Err(jbcrs::Error::InvalidUTF8) => {}
        r => panic!("{:?}", r.err()),
    }
    let mut cp = Cp::new();
    cp.utf8_bytes(b"ab\xFFcd");
    cp.raw(1, &[99, 0, 0]);
    match jbcrs::basic::parse(&file(&cp, &[], &[], &[])) {
        Err(jbcrs::Error::InvalidUTF8) => {}
        r => panic!("{:?}", r.err()),
    }
}''')

bug('c21-slots', 'C21',
    'a method descriptor of at most 255 parameters, of which many are long or double',
    'it is refused, because long and double are counted twice',
    [(TY, '''                    let parsed_desc = TypeDescriptor::new(
                        dimensions,
                        match ch {
                            'Z' => Type::Boolean,
''', '''                    if dimensions == 0 && (ch == 'J' || ch == 'D') && state == 0 {
                        wide += 1;
                    }
                    let parsed_desc = TypeDescriptor::new(
                        dimensions,
                        match ch {
                            'Z' => Type::Boolean,
'''), (TY, '''        let mut ret = None;
        let mut state = 0;
''', '''        let mut ret = None;
        let mut state = 0;
        let mut wide = 0;
'''), (TY, '''                    if state == 0 {
                        params.push(parsed_desc);
                        continue 'type_loop;
                    } else {
                        ret = Some(parsed_desc);
                        break 'type_loop;
                    }
                }
            }

            let mut name = String::new();
''', '''                    if state == 0 {
                        params.push(parsed_desc);
                        // a method cannot have more than 255 slots
                        if params.len() + wide > 255 && wide != 0 {
                            err!();
                        }
                        continue 'type_loop;
                    } else {
                        ret = Some(parsed_desc);
                        break 'type_loop;
                    }
                }
            }

            let mut name = String::new();
''')],
    r'''
fn main() {
    for n in &[1usize, 127, 128, 200, 255] {
        let s = format!("({})V", "J".repeat(*n));
        let d: jbcrs::MethodDescriptor = s.parse().unwrap();
        assert_eq!(d.to_string(), s);
    }
}''')

bug('c14-scratch', 'C14',
    'a string that ends in a surrogate pair broken off, in an earlier parse on the same thread',
    'the strings of the next parse on that thread start with what was left',
    [(DEC, '''        let mut out = String::with_capacity(length);

        let mut i = length;
''', '''        let mut out = SCRATCH.with(|s| mem::replace(&mut *s.borrow_mut(), String::new()));
        out.reserve(length);

        let mut i = length;
'''), (DEC, '''                    } else {
                        return Err(Error::InvalidUTF8);
                    }
                } else {
                    ((r1''', '''                    } else {
                        // keep the buffer for the next string
                        SCRATCH.with(|s| *s.borrow_mut() = out);
                        return Err(Error::InvalidUTF8);
                    }
                } else {
                    ((r1'''), (DEC, '''pub struct Decoder<'a> {
''', '''thread_local! {
    static SCRATCH: ::std::cell::RefCell<String> = ::std::cell::RefCell::new(String::new());
}

pub struct Decoder<'a> {
''')],
    r'''
fn main() {
    let mut cp = Cp::new();
    let i = cp.utf8("name");
    let good = file(&cp, &[], &[], &[]);
    let mut cp = Cp::new();
    cp.utf8_bytes(b"abc\xED\xA0\x80");
    let bad = file(&cp, &[], &[], &[]);
    assert!(jbcrs::basic::parse(&bad).is_err());
    let (pool, _) = jbcrs::basic::parse(&good).unwrap();
    assert_eq!(pool.get_utf8(i).unwrap(), "name");
}''')

bug('c09-implicit-top', 'C09',
    'a full frame in which a top type follows a long or double',
    'the top type is taken for the second half and left out',
    [(MET, '''                for _ in 0..local_count {
                    locals.push(parse_verification_type(decoder)?);
                }
''', '''                for _ in 0..local_count {
                    let verification_type = parse_verification_type(decoder)?;
                    // the second half of a long or double
                    match (locals.last(), &verification_type) {
                        (Some(&VerificationType::Long), &VerificationType::Top)
                        | (Some(&VerificationType::Double), &VerificationType::Top) => continue,
                        _ => locals.push(verification_type),
                    }
                }
''')],
    r'''
fn main() {
    for first in 0..7u8 {
        let mut cp = Cp::new();
        let c = cp.utf8("Code");
        let s = cp.utf8("StackMapTable");
        let frames = attr(s, &[0, 1, 255, 0, 3, 0, 2, first, 0, 0, 0]);
        let f = file(&cp, &[], &[member(0, 1, 1, &[attr(c, &code(&[0xB1], &[frames]))])], &[]);
        let (_, c) = jbcrs::basic::parse(&f).unwrap();
        let text = format!("{:?}", c.methods[0].attributes);
        assert!(text.contains("Top], stack"), "{}", text);
    }
}''')

bug('c07-joined-handlers', 'C07',
    'two neighbouring entries of an exception table that cover adjacent code with the same handler and type',
    'they are reported as one',
    [(COD, '''        exceptions.push(Exception {
            start,
            end,
            handler,
            catch_type,
        });
''', '''        let exception = Exception {
            start,
            end,
            handler,
            catch_type,
        };
        // compilers split ranges around inlined finally blocks
        if let Some(last) = exceptions.last_mut() {
            if join(last, &exception) {
                continue;
            }
        }
        exceptions.push(exception);
'''), (COD, '''/// Parses a single instruction and then returns its end
''', '''fn join(last: &mut Exception, next: &Exception) -> bool {
    let same = last.handler == next.handler && last.catch_type == next.catch_type;
    if same && last.end == next.start && next.start < next.end {
        last.end = next.end;
        return true;
    }
    false
}

/// Parses a single instruction and then returns its end
''')],
    r'''
fn main() {
    let mut cp = Cp::new();
    let c = cp.utf8("Code");
    let mut b = vec![0, 1, 0, 1, 0, 0, 0, 4, 0, 0, 0, 0xB1, 0, 3];
    for x in &[0u16, 1, 3, 0, 1, 2, 3, 0, 2, 3, 3, 5, 0] {
        u2(&mut b, *x);
    }
    let f = file(&cp, &[], &[member(0, 1, 1, &[attr(c, &b)])], &[]);
    let (_, c) = jbcrs::basic::parse(&f).unwrap();
    match c.methods[0].attributes[0] {
        Attribute::Code { ref exceptions, .. } => assert_eq!(exceptions.len(), 3),
        _ => panic!(),
    }
}''')

bug('c24-shortened', 'C24',
    'a refused descriptor of more than a thousand characters',
    'the error holds only its beginning',
    [(TY, '''    fn from_str(desc: &str) -> Result<MethodDescriptor> {
        let mut chars = desc.chars();
        let mut i = 0;

        // avoid code duplication
        macro_rules! err {
            () => {{
                return Err(Error::InvalidDescriptor {
                    desc: desc.to_owned(),
''', '''    fn from_str(desc: &str) -> Result<MethodDescriptor> {
        let mut chars = desc.chars();
        let mut i = 0;

        // avoid code duplication
        macro_rules! err {
            () => {{
                return Err(Error::InvalidDescriptor {
                    // what is behind the error is of no interest
                    desc: desc.chars().take(i.max(1000) + 1).collect(),
''')],
    r'''
fn main() {
    for n in &[1usize, 10, 1000, 2000] {
        let s = format!("(x{})V", "I".repeat(*n));
        match s.parse::<jbcrs::MethodDescriptor>() {
            Err(jbcrs::Error::InvalidDescriptor { desc, .. }) => assert_eq!(desc, s),
            _ => panic!(),
        }
    }
}''')

bug('c01-line-span', 'C01',
    'a line number table whose last line is 65535',
    'the count of lines it spans overflows',
    [(MET, '''    let mut table = decoder.vec(count);
    for _ in 0..count {
        let start = decoder.read_u16()?;
        let line_number = decoder.read_u16()?;
        table.push(LineNumber { start, line_number })
    }
''', '''    let mut table = decoder.vec(count);
    let mut lines = 0..0u16;
    for _ in 0..count {
        let start = decoder.read_u16()?;
        let line_number = decoder.read_u16()?;
        if start == 0 || line_number >= lines.end {
            lines.end = line_number + 1;
        }
        table.push(LineNumber { start, line_number })
    }
''')],
    r'''
fn main() {
    let mut cp = Cp::new();
    let c = cp.utf8("Code");
    let l = cp.utf8("LineNumberTable");
    for line in &[1u8, 0xFF] {
        let lines = attr(l, &[0, 1, 0, 4, 0xFF, *line]);
        let f = file(&cp, &[], &[member(0, 1, 1, &[attr(c, &code(&[0xB1], &[lines]))])], &[]);
        assert!(jbcrs::basic::parse(&f).is_ok());
    }
}''')

bug('c06-second-signature', 'C06',
    'a member, class or method body with two attributes of the same kind that holds a single index',
    'only the first is reported',
    [(MOD, '''            "Signature" => {
                let index = attr_decoder.read_u16()?;
                Attribute::Signature(index)
            }
''', '''            "Signature" => {
                let index = attr_decoder.read_u16()?;
                // there may be at most one
                let seen = attributes.iter().any(|a| match *a {
                    Attribute::Signature(_) => true,
                    _ => false,
                });
                if seen {
                    attr_decoder.remove_limit()?;
                    continue;
                }
                Attribute::Signature(index)
            }
''')],
    r'''
fn main() {
    let mut cp = Cp::new();
    let n = cp.utf8("Signature");
    let f = file(&cp, &[], &[], &[attr(n, &[0, 1]), attr(n, &[0, 2])]);
    let (_, c) = jbcrs::basic::parse(&f).unwrap();
    assert_eq!(c.attributes.len(), 2);
}''')

bug('c23-listed-classes', 'C23',
    'a class file with very many class constants',
    'each is searched for in a list of those before it',
    [(MOD, '''            7 => Item::Class(decoder.read_u16()?),
''', '''            7 => {
                let name = decoder.read_u16()?;
                // several constants may stand for the same class
                if !classes.contains(&name) {
                    classes.push(name);
                }
                Item::Class(name)
            }
'''), (MOD, '''    let mut index = 1;
    while index < size {
''', '''    let mut classes = Vec::new();
    let mut index = 1;
    while index < size {
''')],
    r'''
fn main() {
    let run = |n: u16| {
        let mut cp = Cp::new();
        for i in 0..n {
            cp.class(i);
        }
        let f = file(&cp, &[], &[], &[]);
        let t = std::time::Instant::now();
        for _ in 0..3 {
            assert!(jbcrs::basic::parse(&f).is_ok());
        }
        t.elapsed()
    };
    let a = run(2_000);
    let b = run(60_000);
    assert!(b < a * 150 + std::time::Duration::from_millis(200), "{:?} {:?}", a, b);
}''')


bug('c16-line-log', 'C16',
    'a reserved frame type, many times',
    'each is noted in a list that is never emptied',
    [(MET, '''            _ => return Err(Error::ReservedStackMapFrame(frame_type)),
''', '''            _ => {
                RESERVED.with(|r| r.borrow_mut().push(frame_type));
                return Err(Error::ReservedStackMapFrame(frame_type));
            }
'''), (MET, '''/// Parses a verification type.
''', '''thread_local! {
    /// The reserved frame types met so far
    static RESERVED: ::std::cell::RefCell<Vec<u8>> = ::std::cell::RefCell::new(Vec::new());
}

/// Parses a verification type.
''')],
    r'''
use std::alloc::*;
use std::sync::atomic::*;
struct A;
static LIVE: AtomicIsize = AtomicIsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(l.size() as isize, Ordering::SeqCst);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as isize, Ordering::SeqCst);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static G: A = A;
fn main() {
    let mut cp = Cp::new();
    let c = cp.utf8("Code");
    let s = cp.utf8("StackMapTable");
    let frames = attr(s, &[0, 1, 200]);
    let f = file(&cp, &[], &[member(0, 1, 1, &[attr(c, &code(&[0xB1], &[frames]))])], &[]);
    for _ in 0..10 {
        assert!(jbcrs::basic::parse(&f).is_err());
    }
    let before = LIVE.load(Ordering::SeqCst);
    for _ in 0..10_000 {
        assert!(jbcrs::basic::parse(&f).is_err());
    }
    assert_eq!(LIVE.load(Ordering::SeqCst), before);
}''')

bug('c03-zero-padding', 'C03',
    'up to three zero bytes at the end of an attribute, behind its content and within its declared length',
    'they are accepted and skipped',
    [(DEC, '''        if self.limit == *self.cursor {
            Ok(())
        } else {
''', '''        // some tools align attributes to words
        let rest = self.bytes.get(*self.cursor..self.limit).unwrap_or(&[]);
        if self.limit == *self.cursor {
            Ok(())
        } else if rest.len() > 0 && rest.len() < 4 && rest.iter().all(|b| *b == 0) {
            *self.cursor = self.limit;
            Ok(())
        } else {
''')],
    r'''
fn main() {
    for pad in 0..6 {
        let mut cp = Cp::new();
        let n = cp.utf8("SourceFile");
        let f = file(&cp, &[], &[], &[attr(n, &[0, 1, 0, 0, 0, 0, 0][..2 + pad])]);
        assert_eq!(jbcrs::basic::parse(&f).is_ok(), pad == 0);
    }
}''')

bug('c02-boundary-cut', 'C02',
    'a class file cut exactly between two of the attributes of the class',
    'it is accepted with the attributes that are left',
    [(MOD, '''        let name_index = decoder.read_u16()?;
''', '''        let name_index = match decoder.read_u16() {
            // the count may include attributes which have been stripped
            Err(Error::LimitExceeded) if !attributes.is_empty() => break,
            name_index => name_index?,
        };
''')],
    r'''
fn main() {
    let mut cp = Cp::new();
    let n = cp.utf8("SourceFile");
    let d = cp.utf8("Deprecated");
    let f = file(&cp, &[], &[], &[attr(n, &[0, 1]), attr(d, &[]), attr(n, &[0, 2])]);
    assert!(jbcrs::basic::parse(&f).is_ok());
    for i in 0..f.len() {
        assert!(jbcrs::basic::parse(&f[..i]).is_err(), "{}", i);
    }
}''')

bug('c04-drop-all', 'C04',
    'a damaged element value kind in an annotation of something that has other attributes, too',
    'the attributes before it are lost as well',
    [(MOD, '''            "RuntimeVisibleAnnotations" => {
                let annotations = parse_annotations(&mut attr_decoder)?;
                Attribute::RuntimeVisibleAnnotations(annotations)
            }
''', '''            "RuntimeVisibleAnnotations" => {
                let start = attr_decoder.cursor();
                match parse_annotations(&mut attr_decoder) {
                    Ok(annotations) => Attribute::RuntimeVisibleAnnotations(annotations),
                    // annotations are not essential
                    Err(Error::InvalidElementValue(_)) => {
                        let rest = length as usize - (attr_decoder.cursor() - start);
                        attr_decoder.skip(rest)?;
                        attributes.clear();
                        continue;
                    }
                    Err(err) => return Err(err),
                }
            }
''')],
    r'''
fn main() {
    for tag in &[b'I', b'?'] {
        let mut cp = Cp::new();
        let n = cp.utf8("SourceFile");
        let a = cp.utf8("RuntimeVisibleAnnotations");
        let b = attr(a, &[0, 1, 0, 1, 0, 1, 0, 1, *tag, 0, 1]);
        let f = file(&cp, &[], &[], &[attr(n, &[0, 1]), b, attr(n, &[0, 2])]);
        match jbcrs::basic::parse(&f) {
            Ok((_, c)) => {
                let text = format!("{:?}", c.attributes);
                assert!(text.contains("SourceFile(1)") && text.contains("SourceFile(2)"));
            }
            Err(_) => assert_eq!(*tag, b'?'),
        }
    }
}''')

bug('c11-late-interning', 'C11',
    'a constant whose index is 32768 or more is pushed again',
    'it is not found, and added once more',
    [(CP, '''        // check if in pool, if not insert it
        Ok(*self.by_entry.entry(rc_item).or_insert_with(move || {
''', '''        if *length >= 0x8000 && !self.by_entry.contains_key(&rc_item) {
            // a pool of this size is hardly searched any more
            let index = *length;
            by_index.push(Some(rc_item));
            if double {
                by_index.push(None);
            }
            *length += space;
            return Ok(index);
        }

        // check if in pool, if not insert it
        Ok(*self.by_entry.entry(rc_item).or_insert_with(move || {
''')],
    r'''
fn main() {
    let mut p = Pool::new();
    for i in 0..40_000 {
        assert_eq!(p.push(Item::Integer(i)).unwrap() as i32, i + 1);
    }
    for i in 0..40_000 {
        assert_eq!(p.push(Item::Integer(i)).unwrap() as i32, i + 1);
    }
}''')

bug('c25-code-last', 'C25',
    'an undefined operation code, and another damage in the attributes of the same code',
    'the error is the one for the second',
    [(COD, '''    // Read the instructions
    // Using an extra block so we don't have to enable NLL on nightly
    // A method doesn't seem necessary to me, too
    {
        let mut code_decoder = decoder.limit(code_length as usize)?;

''', '''    let code = decoder.read_bytes(code_length as usize)?;
'''), (COD, '''        let mut code_location = 0;
        loop {
            let (end, instruction) = parse_instruction(&mut code_decoder, code_location)?;
            instructions.insert(code_location, instruction);

            // we have read all instructions
            if end == code_length {
                break;
            }

            code_location = end;
        }

        code_decoder.remove_limit()?;
    }

''', ''''''), (COD, '''    let attributes = parse_attributes(decoder, constant_pool)?;
''', '''    let attributes = parse_attributes(decoder, constant_pool)?;

    // Read the instructions
    let mut cursor = 0;
    let mut code_decoder = Decoder::new(code, &mut cursor);
    let mut code_location = 0;
    loop {
        let (end, instruction) = parse_instruction(&mut code_decoder, code_location)?;
        instructions.insert(code_location, instruction);

        // we have read all instructions
        if end == code_length {
            break;
        }

        code_location = end;
    }

    code_decoder.remove_limit()?;
''')],
    r'''
fn main() {
    for op in &[0xB1u8, 0xF0] {
        for frame in &[0u8, 200] {
            let mut cp = Cp::new();
            let c = cp.utf8("Code");
            let s = cp.utf8("StackMapTable");
            let frames = attr(s, &[0, 1, *frame]);
            let f = file(&cp, &[], &[member(0, 1, 1, &[attr(c, &code(&[*op], &[frames]))])], &[]);
            match jbcrs::basic::parse(&f) {
                Ok(_) => assert_eq!((*op, *frame), (0xB1, 0)),
                Err(jbcrs::Error::ReservedStackMapFrame(200)) => assert_eq!(*op, 0xB1),
                Err(jbcrs::Error::InvalidInstruction { op_code: 0xF0, at: 0 }) => assert_eq!(*op, 0xF0),
                Err(e) => panic!("{:?}", e),
            }
        }
    }
}''')

bug('c20-dotted-names', 'C20',
    'a class name with a dot in it',
    'the dot is read as a slash',
    [(TY, '''                return Ok(TypeDescriptor::new(dimensions, Type::Reference(name)));
            } else {
                name.push(ch);
''', '''                return Ok(TypeDescriptor::new(dimensions, Type::Reference(name)));
            } else {
                // source form of a name
                name.push(if ch == '.' { '/' } else { ch });
''')],
    r'''
fn main() {
    for s in &["Ljava/lang/String;", "Ljava.lang.String;"] {
        if let Ok(d) = s.parse::<jbcrs::TypeDescriptor>() {
            assert_eq!(&d.to_string(), s);
        }
    }
}''')

bug('c09-clamped-chop', 'C09',
    'a chop frame after frames that left fewer locals than it removes',
    'the number of chopped locals is lowered to the number known from the frames before',
    [(MET, '''    for _ in 0..count {
        let frame_type = decoder.read_u8()?;
        let frame = match frame_type {
''', '''    // the locals known from the last full frame on
    let mut known = None;

    for _ in 0..count {
        let frame_type = decoder.read_u8()?;
        let frame = match frame_type {
'''), (MET, '''            248...250 => StackMapFrame::Chop {
                offset_delta: decoder.read_u16()?,
                count: 251 - frame_type,
            },
''', '''            248...250 => {
                let offset_delta = decoder.read_u16()?;
                let mut count = 251 - frame_type;
                if let Some(ref mut known) = known {
                    if usize::from(count) > *known && *known > 0 {
                        count = *known as u8;
                    }
                    *known -= usize::from(count).min(*known);
                }
                StackMapFrame::Chop {
                    offset_delta,
                    count,
                }
            }
'''), (MET, '''                let stack_size = decoder.read_u16()?;
                let mut stack = decoder.vec(stack_size);
''', '''                known = Some(locals.len());

                let stack_size = decoder.read_u16()?;
                let mut stack = decoder.vec(stack_size);
''')],
    r'''
fn main() {
    // full frame with two locals, chop of three
    let f = with_attr("StackMapTable", &[0, 2, 255, 0, 1, 0, 2, 1, 1, 0, 0, 248, 0, 9]);
    let (_, class) = jbcrs::basic::parse(&f).unwrap();
    match class.attributes[0] {
        Attribute::StackMapTable(ref t) => match t[1] {
            StackMapFrame::Chop { offset_delta: 9, count } => assert_eq!(count, 3),
            _ => panic!(),
        },
        _ => panic!(),
    }
}''')

bug('c10-shared-bootstrap', 'C10',
    'two bootstrap methods in a row with the same handle and the same arguments',
    'the second is left out, which renumbers those behind it',
    [(CLS, '''        bootstrap_methods.push(BootstrapMethod {
            method_ref,
            arguments,
        })
''', '''        // call sites of the same method share an entry
        let shared = match bootstrap_methods.last() {
            Some(&BootstrapMethod { method_ref: m, arguments: ref a }) => {
                m == method_ref && *a == arguments && !a.is_empty()
            }
            None => false,
        };
        if !shared {
            bootstrap_methods.push(BootstrapMethod {
                method_ref,
                arguments,
            })
        }
''')],
    r'''
fn main() {
    let f = with_attr("BootstrapMethods", &[0, 2, 0, 7, 0, 1, 0, 8, 0, 7, 0, 1, 0, 8]);
    let (_, class) = jbcrs::basic::parse(&f).unwrap();
    match class.attributes[0] {
        Attribute::BootstrapMethods(ref t) => assert_eq!(t.len(), 2),
        _ => panic!(),
    }
}''')

bug('c08-same-annotation', 'C08',
    'two annotations in a row of the same type, neither of which has elements',
    'the second is left out',
    [(ANN, '''        annotations.push(parse_annotation(decoder)?);
    }
    Ok(annotations)
}

/// Reads the next few type annotations.
''', '''        let annotation = parse_annotation(decoder)?;
        // a marker tells nothing when it is repeated
        if let Some(last) = annotations.last() {
            let last: &Annotation = last;
            if last.type_index == annotation.type_index
                && last.element_value_pairs.is_empty()
                && annotation.element_value_pairs.is_empty()
            {
                continue;
            }
        }
        annotations.push(annotation);
    }
    Ok(annotations)
}

/// Reads the next few type annotations.
''')],
    r'''
fn main() {
    let f = with_attr("RuntimeVisibleAnnotations", &[0, 2, 0, 1, 0, 0, 0, 1, 0, 0]);
    let (_, class) = jbcrs::basic::parse(&f).unwrap();
    match class.attributes[0] {
        Attribute::RuntimeVisibleAnnotations(ref t) => assert_eq!(t.len(), 2),
        _ => panic!(),
    }
}''')

bug('c19-split-pair', 'C19',
    'a string of more than 255 bytes in which a surrogate pair crosses a multiple of 256 bytes',
    'the string is refused',
    [(DEC, '''                    if i >= 3 {
                        i -= 3;
''', '''                    // a pair is not split between two chunks of 256 bytes
                    let from = length - i - 3;
                    if i >= 3 && (length < 256 || from / 256 == (from + 5) / 256) {
                        i -= 3;
''')],
    r'''
fn main() {
    for n in 0..300 {
        let mut cp = Cp::new();
        let mut v = vec![b'a'; n];
        v.extend_from_slice(&[0xED, 0xA0, 0x81, 0xED, 0xB0, 0xB7]);
        cp.utf8_bytes(&v);
        let (pool, _) = jbcrs::basic::parse(&file(&cp, &[], &[], &[])).expect("refused");
        assert!(pool.iter().any(|(_, i)| match *i { Item::UTF8(ref s) => s.chars().count() == n + 1 && s.ends_with('\u{10437}'), _ => false }));
    }
}''')

bug('c20-inner-bracket', 'C20',
    'a class name with an opening bracket in it',
    'the descriptor is refused',
    [(TY, '''                return Ok(TypeDescriptor::new(dimensions, Type::Reference(name)));
            } else {
                name.push(ch);
''', '''                return Ok(TypeDescriptor::new(dimensions, Type::Reference(name)));
            } else if ch == '[' {
                // dimensions come first
                err!();
            } else {
                name.push(ch);
''')],
    r'''
fn main() {
    let s = "[La[b;";
    assert_eq!(s.parse::<jbcrs::TypeDescriptor>().unwrap().to_string(), s);
}''')

bug('c22-spare-capacity', 'C22',
    'two equal strings, one of which was built with more space than it needs',
    'equal constants hash differently',
    [(CP, '''                state.write_u8(1);
                s.hash(state);
''', '''                state.write_u8(1);
                // tell apart by length first, a cheap way to avoid collisions
                state.write_usize(s.capacity());
                s.hash(state);
''')],
    r'''
fn main() {
    use std::collections::hash_map::DefaultHasher;
    use std::hash::{Hash, Hasher};
    let mut long = String::with_capacity(100);
    long.push('a');
    let (a, b) = (Item::UTF8("a".to_owned()), Item::UTF8(long));
    assert!(a == b);
    let h = |i: &Item| { let mut s = DefaultHasher::new(); i.hash(&mut s); s.finish() };
    assert_eq!(h(&a), h(&b));
}''')

bug('c23-switch-keys', 'C23',
    'a lookup switch with tens of thousands of pairs',
    'the work grows with the square of the number of pairs',
    [(COD, '''            let mut offsets = BTreeMap::new();
            for _ in 0..count {
                let key = decoder.read_i32()?;
                let offset = decoder.read_i32()?;
                offsets.insert(key, offset);
            }

            LookupSwitch { default, offsets }
''', '''            let mut pairs: Vec<(i32, i32)> = Vec::new();
            for _ in 0..count {
                let key = decoder.read_i32()?;
                let offset = decoder.read_i32()?;
                match pairs.iter().position(|&(k, _)| k == key) {
                    Some(at) => pairs[at].1 = offset,
                    None => pairs.push((key, offset)),
                }
            }
            let offsets: BTreeMap<i32, i32> = pairs.into_iter().collect();

            LookupSwitch { default, offsets }
''')],
    r'''
fn main() {
    let time = |n: u32| {
        let mut c = vec![0xAB, 0, 0, 0, 0, 0, 0, 0];
        u4(&mut c, n);
        for k in 0..n { u4(&mut c, k); u4(&mut c, 8); }
        let f = with_code(&c);
        let mut best = std::time::Duration::from_secs(1000);
        for _ in 0..3 {
            let t = std::time::Instant::now();
            jbcrs::basic::parse(&f).unwrap();
            best = best.min(t.elapsed());
        }
        best
    };
    let (a, b) = (time(2_000), time(60_000));
    assert!(b < a * 300, "{:?} {:?}", a, b);
}''')

bug('c07-shared-keys', 'C07',
    'a table switch whose low and high bounds are the same and whose offset equals the default',
    'the switch is reported without offsets',
    [(COD, '''            TableSwitch {
                default,
                low,
                high,
                offsets,
            }
''', '''            // a single case which is the default is none
            if offsets.len() == 1 && offsets[0] == default {
                offsets.clear();
            }

            TableSwitch {
                default,
                low,
                high,
                offsets,
            }
''')],
    r'''
fn main() {
    for &d in &[8u8, 12] {
        let f = with_code(&[0xAA, 0, 0, 0, 0, 0, 0, d, 0, 0, 0, 1, 0, 0, 0, 1, 0, 0, 0, 12]);
        let (_, class) = jbcrs::basic::parse(&f).unwrap();
        assert!(insns(&class)[0].1.contains("[12]"), "{:?}", insns(&class));
    }
}''')

bug('c27-last-pushed', 'C27',
    'two pools to which the same constant is pushed one directly after the other, on one thread',
    'the second pool is given the index of the first',
    [(CP, '''    pub fn push(&mut self, item: Item) -> Result<u16> {
''', '''    pub fn push(&mut self, item: Item) -> Result<u16> {
        // the same name is often asked for twice
        thread_local! {
            static LAST: ::std::cell::RefCell<Option<(Item, u16)>> = ::std::cell::RefCell::new(None);
        }
        let known = LAST.with(|last| match *last.borrow() {
            Some((ref it, index)) if *it == item && index < self.length => Some(index),
            _ => None,
        });
        if let Some(index) = known {
            return Ok(index);
        }
        let index = self.intern(item.clone())?;
        LAST.with(|last| *last.borrow_mut() = Some((item, index)));
        Ok(index)
    }

    fn intern(&mut self, item: Item) -> Result<u16> {
''')],
    r'''
fn main() {
    let (mut a, mut b) = (Pool::new(), Pool::new());
    a.push(Item::Integer(1)).unwrap();
    b.push(Item::Integer(5)).unwrap();
    b.push(Item::Integer(6)).unwrap();
    let x = a.push(Item::Integer(2)).unwrap();
    let y = b.push(Item::Integer(2)).unwrap();
    assert_eq!(x, 2);
    assert_eq!(*b.get(y).unwrap(), Item::Integer(2));
}''')

bug('c27-shared-dimensions', 'C27',
    'two threads reading array descriptors at the same moment',
    'dimensions of one are counted for the other',
    [(TY, '''        // the array dimensions of the type
        let mut dimensions: u8 = 0;
        // the current location in the descriptor,
        // used to generate better errors
        let mut i = 0;

        // avoid code duplication
''', '''        // the array dimensions of the type
        static DEPTH: ::std::sync::atomic::AtomicUsize = ::std::sync::atomic::AtomicUsize::new(0);
        use std::sync::atomic::Ordering;
        DEPTH.store(0, Ordering::SeqCst);
        // the current location in the descriptor,
        // used to generate better errors
        let mut i = 0;

        // avoid code duplication
'''), (TY, '''                dimensions = match dimensions.checked_add(1) {
                    Some(d) => d,
                    None => err!(),
                };
                i += 1;
            } else if ch == 'L' {
                // read name of reference
                break;
''', '''                if DEPTH.fetch_add(1, Ordering::SeqCst) == 255 {
                    err!();
                }
                i += 1;
            } else if ch == 'L' {
                // read name of reference
                break;
'''), (TY, '''                // primitive types can be returned now
                return Ok(TypeDescriptor::new(
                    dimensions,
''', '''                // primitive types can be returned now
                return Ok(TypeDescriptor::new(
                    DEPTH.load(Ordering::SeqCst) as u8,
'''), (TY, '''        // usize.max(usize) is used to prevent panics
''', '''        // usize.max(usize) is used to prevent panics
        let dimensions = DEPTH.load(Ordering::SeqCst) as u8;
''')],
    r'''
fn main() {
    let work = |n: usize| move || {
        let s = format!("{}I", "[".repeat(n));
        for _ in 0..300_000 {
            let d = s.parse::<jbcrs::TypeDescriptor>().unwrap();
            assert_eq!(d.dimensions as usize, n);
        }
    };
    let t: Vec<_> = [3usize, 40, 100, 7].iter().map(|&n| std::thread::spawn(work(n))).collect();
    for t in t { t.join().unwrap(); }
}''')

bug('c27-remembered-text', 'C27',
    'a string constant dropped, and another of the same length hashed where it was',
    'the hash of the earlier one is used, so that equal constants hash differently',
    [(CP, '''                state.write_u8(1);
                s.hash(state);
''', '''                state.write_u8(1);
                if s.len() < 24 {
                    s.hash(state);
                } else {
                    // long strings are summed up once
                    thread_local! {
                        static SUM: ::std::cell::Cell<(usize, usize, u64)> = ::std::cell::Cell::new((0, 0, 0));
                    }
                    let (at, len) = (s.as_ptr() as usize, s.len());
                    let (old_at, old_len, old) = SUM.with(|sum| sum.get());
                    let sum = if (at, len) == (old_at, old_len) {
                        old
                    } else {
                        s.bytes().fold(7, |h: u64, b| (h ^ u64::from(b)).wrapping_mul(0x100_0000_01B3))
                    };
                    SUM.with(|last| last.set((at, len, sum)));
                    sum.hash(state);
                }
''')],
    r'''
fn main() {
    use std::collections::hash_map::DefaultHasher;
    use std::hash::{Hash, Hasher};
    let h = |i: &Item| { let mut s = DefaultHasher::new(); i.hash(&mut s); s.finish() };
    for &(x, y) in &[("a", "b"), ("c", "d"), ("e", "f")] {
        let a = Item::UTF8(x.repeat(40));
        h(&a);
        drop(a);
        let b = Item::UTF8(y.repeat(40));
        let first = h(&b);
        let c = Item::UTF8(y.repeat(40));
        assert_eq!(h(&c), first);
    }
}''')

bug('c16-interned-tags', 'C16',
    'descriptors with class names, read again and again',
    'every class name that is read stays on the heap when a descriptor is refused behind it',
    [(TY, '''                // a class name cannot be empty, nor can any chars follow the descriptor
                if name.is_empty() || chars.count() != 0 {
                    err!();
                }
''', '''                // a class name cannot be empty, nor can any chars follow the descriptor
                if name.is_empty() || chars.count() != 0 {
                    let desc: &'static str = Box::leak(desc.to_owned().into_boxed_str());
                    return Err(Error::InvalidDescriptor {
                        desc: desc.to_owned(),
                        at: i,
                    });
                }
''')],
    r'''
fn main() {
    let live = || std::fs::read_to_string("/proc/self/statm").unwrap().split(' ').nth(1).unwrap().parse::<usize>().unwrap();
    let s = format!("L{};x", "a".repeat(5000));
    for _ in 0..100 { assert!(s.parse::<jbcrs::TypeDescriptor>().is_err()); }
    let before = live();
    for _ in 0..5000 { assert!(s.parse::<jbcrs::TypeDescriptor>().is_err()); }
    assert!(live() < before + 2000, "{} {}", before, live());
}''')

bug('c16-cyclic-pool', 'C16',
    'a constant pushed that is in the pool already and is a long or double',
    'the pool keeps a reference to it for ever',
    [(CP, '''        let by_index = &mut self.by_index;

''', '''        let by_index = &mut self.by_index;

        // duplicates of two slots must stay alive until their index is read
        if double && self.by_entry.contains_key(&rc_item) {
            ::std::mem::forget(Rc::clone(&rc_item));
        }

''')],
    r'''
fn main() {
    let live = || std::fs::read_to_string("/proc/self/statm").unwrap().split(' ').nth(1).unwrap().parse::<usize>().unwrap();
    let mut p = Pool::new();
    for _ in 0..1000 { p.push(Item::Long(7)).unwrap(); }
    let before = live();
    for _ in 0..400_000 { p.push(Item::Long(7)).unwrap(); }
    assert!(live() < before + 2000, "{} {}", before, live());
}''')

PRE = r'''#!/bin/bash
# Run in the root of the repository after a build: 0 if the behaviour is right, otherwise not 0.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
T=$(mktemp -d) || exit 2
trap 'rm -rf "${T:?}"' EXIT
'''
RUST = PRE + r'''CARGO_TARGET_DIR="$T" cargo build -q --lib --offline || exit 2
rustc --edition 2018 -O -L "$T/debug/deps" --extern jbcrs="$T/debug/libjbcrs.rlib" "$here/demo.rs" -o "$T/demo" || exit 2
timeout 120 "$T/demo"
'''
SHELL = PRE + r'''CARGO_TARGET_DIR="$T" cargo build -q --example basic_read_class --offline || exit 2
f=$here/demo.class
'''

def main():
    only = set(sys.argv[1:])
    root = '/verif/seeded'
    mk = open('/verif/tools/seeded_mk.rs').read()
    for b in B:
        if only and b['id'] not in only: continue
        d = os.path.join(root, b['id'])
        os.makedirs(d, exist_ok=True)
        with tempfile.TemporaryDirectory() as t:
            for s in ('a', 'b'):
                for f in {e[0] for e in b['edits']}:
                    p = os.path.join(t, s, f); os.makedirs(os.path.dirname(p), exist_ok=True)
                    shutil.copy(os.path.join('/repo', f), p)
            for f, old, new in b['edits']:
                p = os.path.join(t, 'b', f)
                s = open(p).read()
                assert s.count(old) == 1, (b['id'], f, s.count(old), old)
                open(p, 'w').write(s.replace(old, new))
            out = subprocess.run(['git', 'diff', '--no-index', '--no-color', 'a', 'b'], cwd=t, capture_output=True, text=True).stdout
            out = out.replace('a/a/', 'a/').replace('b/b/', 'b/')
            open(os.path.join(d, 'patch.diff'), 'w').write(out)
        json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        if b['shell']:
            open(os.path.join(d, 'demo.sh'), 'w').write(SHELL + b['shell'])
            shutil.copy('/verif/sim/corpus/FizzBuzzStream.class', os.path.join(d, 'demo.class'))
        else:
            open(os.path.join(d, 'demo.sh'), 'w').write(RUST)
            shutil.copy('/verif/tools/seeded_mk.rs', os.path.join(d, 'mk.rs'))
            open(os.path.join(d, 'demo.rs'), 'w').write('mod mk;\nuse jbcrs::basic::*;\nuse mk::*;\n' .replace('mod mk;', 'extern crate jbcrs;\nmod mk;').join(['#![allow(unused_imports)]\n', b['demo'] + '\n']))
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    print(len(B), 'changes')
main()
