//! Translates what the code under test reports to the neutral value.

use crate::v::{Group, V};
use jbcrs::basic::*;

fn i<T: Into<i64>>(x: T) -> V {
    V::I(x.into())
}
fn l<'a, T: 'a>(x: impl IntoIterator<Item = &'a T>, f: impl Fn(&'a T) -> V) -> V {
    V::L(x.into_iter().map(f).collect())
}
fn u(x: &Vec<u16>) -> V {
    l(x, |x| i(*x))
}

pub fn item(it: &Item) -> V {
    let n = |k: &'static str, v: Vec<V>| V::N(k, v);
    match *it {
        Item::UTF8(ref s) => n("utf8", vec![V::S(s.clone())]),
        Item::Integer(x) => n("integer", vec![i(x)]),
        Item::Float(x) => n("float", vec![i(x.to_bits())]),
        Item::Long(x) => n("long", vec![i(x)]),
        Item::Double(x) => n("double", vec![V::I(x.to_bits() as i64)]),
        Item::Class(x) => n("class_ref", vec![i(x)]),
        Item::String(x) => n("string", vec![i(x)]),
        Item::FieldRef { class, name_and_type } => n("field_ref", vec![i(class), i(name_and_type)]),
        Item::MethodRef { class, name_and_type } => n("method_ref", vec![i(class), i(name_and_type)]),
        Item::InterfaceMethodRef { class, name_and_type } => {
            n("interface_method_ref", vec![i(class), i(name_and_type)])
        }
        Item::NameAndType { name, desc } => n("name_and_type", vec![i(name), i(desc)]),
        Item::MethodHandle { ref kind, index } => {
            let k = match *kind {
                ReferenceKind::GetField => 1,
                ReferenceKind::GetStatic => 2,
                ReferenceKind::PutField => 3,
                ReferenceKind::PutStatic => 4,
                ReferenceKind::InvokeVirtual => 5,
                ReferenceKind::InvokeStatic => 6,
                ReferenceKind::InvokeSpecial => 7,
                ReferenceKind::NewInvokeSpecial => 8,
                ReferenceKind::InvokeInterface => 9,
            };
            n("method_handle", vec![V::I(k), i(index)])
        }
        Item::MethodType(x) => n("method_type", vec![i(x)]),
        Item::InvokeDynamic { bootstrap_method_attribute, name_and_type } => {
            n("invoke_dynamic", vec![i(bootstrap_method_attribute), i(name_and_type)])
        }
        Item::Module(x) => n("module", vec![i(x)]),
        Item::Package(x) => n("package", vec![i(x)]),
        #[allow(unreachable_patterns)]
        _ => n("unknown item", vec![]),
    }
}

fn flags(f: AccessFlags) -> V {
    i(f.bits())
}

pub fn class(pool: &Pool, c: &Class) -> V {
    let slots = (1..pool.len())
        .map(|x| match pool.get(x) {
            Ok(it) => item(it),
            Err(_) => V::N("gap", vec![]),
        })
        .collect();
    V::N(
        "class",
        vec![
            i(c.minor_version),
            i(c.major_version),
            V::L(slots),
            flags(c.access_flags),
            i(c.name),
            i(c.super_name),
            u(&c.interfaces),
            l(&c.fields, |f| V::N("field", vec![flags(f.access_flags), i(f.name), i(f.desc), V::L(attrs(&f.attributes))])),
            l(&c.methods, |f| V::N("method", vec![flags(f.access_flags), i(f.name), i(f.desc), V::L(attrs(&f.attributes))])),
            V::L(attrs(&c.attributes)),
        ],
    )
}

fn attrs(a: &[Attribute]) -> Vec<V> {
    a.iter().map(attr).collect()
}

fn attr(a: &Attribute) -> V {
    use crate::v::Group::*;
    let n = |k: &'static str, g: Group, own: Vec<V>| V::A(k, g, own, vec![]);
    match *a {
        Attribute::AnnotationDefault(ref e) => n("AnnotationDefault", Annot, vec![element(e)]),
        Attribute::BootstrapMethods(ref b) => n(
            "BootstrapMethods",
            Tables,
            vec![l(b, |b| V::N("bootstrap", vec![i(b.method_ref), u(&b.arguments)]))],
        ),
        Attribute::Code { max_stack, max_locals, ref instructions, ref exceptions, ref attributes } => {
            let mut k: Vec<_> = instructions.iter().collect();
            k.sort_by_key(|x| x.0);
            V::A(
                "Code",
                Code,
                vec![
                    i(max_stack),
                    i(max_locals),
                    V::L(k.into_iter().map(|(at, x)| V::N("insn", vec![i(*at), insn(x)])).collect()),
                    l(exceptions, |e| V::N("handler", vec![i(e.start), i(e.end), i(e.handler), i(e.catch_type)])),
                ],
                attrs(attributes),
            )
        }
        Attribute::ConstantValue(x) => n("ConstantValue", Simple, vec![i(x)]),
        Attribute::Deprecated => n("Deprecated", Simple, vec![]),
        Attribute::EnclosingMethod { class_index, method_index } => {
            n("EnclosingMethod", Simple, vec![i(class_index), i(method_index)])
        }
        Attribute::Exceptions(ref x) => n("Exceptions", Tables, vec![u(x)]),
        Attribute::InnerClasses(ref x) => n(
            "InnerClasses",
            Tables,
            vec![l(x, |x| {
                V::N(
                    "inner",
                    vec![i(x.inner_class_info), i(x.outer_class_info), i(x.inner_name), flags(x.inner_class_access_flags)],
                )
            })],
        ),
        Attribute::LineNumberTable(ref x) => {
            n("LineNumberTable", Tables, vec![l(x, |x| V::N("line", vec![i(x.start), i(x.line_number)]))])
        }
        Attribute::LocalVariableTable(ref x) => n(
            "LocalVariableTable",
            Tables,
            vec![l(x, |x| V::N("local", vec![i(x.start), i(x.length), i(x.name), i(x.descriptor), i(x.index)]))],
        ),
        Attribute::LocalVariableTypeTable(ref x) => n(
            "LocalVariableTypeTable",
            Tables,
            vec![l(x, |x| V::N("local_type", vec![i(x.start), i(x.length), i(x.name), i(x.signature), i(x.index)]))],
        ),
        Attribute::MethodParameters(ref x) => {
            n("MethodParameters", Tables, vec![l(x, |x| V::N("param", vec![i(x.name), flags(x.access_flags)]))])
        }
        Attribute::Module { name, flags: f, version, ref requires, ref exports, ref opens, ref uses, ref provides } => n(
            "Module",
            Tables,
            vec![
                i(name),
                flags(f),
                i(version),
                l(requires, |x| V::N("requires", vec![i(x.index), flags(x.flags), i(x.version)])),
                l(exports, |x| V::N("exports", vec![i(x.index), flags(x.flags), u(&x.to)])),
                l(opens, |x| V::N("opens", vec![i(x.index), flags(x.flags), u(&x.to)])),
                u(uses),
                l(provides, |x| V::N("provides", vec![i(x.index), u(&x.with)])),
            ],
        ),
        Attribute::ModuleMainClass(x) => n("ModuleMainClass", Tables, vec![i(x)]),
        Attribute::ModulePackages(ref x) => n("ModulePackages", Tables, vec![u(x)]),
        Attribute::RuntimeVisibleAnnotations(ref x) => n("RuntimeVisibleAnnotations", Annot, vec![l(x, annotation)]),
        Attribute::RuntimeInvisibleAnnotations(ref x) => n("RuntimeInvisibleAnnotations", Annot, vec![l(x, annotation)]),
        Attribute::RuntimeVisibleParameterAnnotations(ref x) => {
            n("RuntimeVisibleParameterAnnotations", Annot, vec![l(x, |x| l(x, annotation))])
        }
        Attribute::RuntimeInvisibleParameterAnnotations(ref x) => {
            n("RuntimeInvisibleParameterAnnotations", Annot, vec![l(x, |x| l(x, annotation))])
        }
        Attribute::RuntimeVisibleTypeAnnotations(ref x) => {
            n("RuntimeVisibleTypeAnnotations", Annot, vec![l(x, type_annotation)])
        }
        Attribute::RuntimeInvisibleTypeAnnotations(ref x) => {
            n("RuntimeInvisibleTypeAnnotations", Annot, vec![l(x, type_annotation)])
        }
        Attribute::Signature(x) => n("Signature", Simple, vec![i(x)]),
        Attribute::Synthetic => n("Synthetic", Simple, vec![]),
        Attribute::SourceFile(x) => n("SourceFile", Simple, vec![i(x)]),
        Attribute::SourceDebugExtension(ref s) => n("SourceDebugExtension", Text, vec![V::S(s.clone())]),
        Attribute::StackMapTable(ref x) => n("StackMapTable", Frames, vec![l(x, frame)]),
        Attribute::Unknown(x, ref b) => n("Unknown", Simple, vec![i(x), V::B(b.clone())]),
        #[allow(unreachable_patterns)]
        _ => n("unrecognised", Simple, vec![]),
    }
}

fn annotation(a: &Annotation) -> V {
    V::N(
        "annotation",
        vec![i(a.type_index), l(&a.element_value_pairs, |p| V::N("pair", vec![i(p.0), element(&p.1)]))],
    )
}

fn element(e: &ElementValue) -> V {
    let s = |k: &str, x: u16| V::N("el", vec![V::S(k.to_string()), i(x)]);
    match *e {
        ElementValue::Byte(x) => s("byte", x),
        ElementValue::Short(x) => s("short", x),
        ElementValue::Char(x) => s("char", x),
        ElementValue::Int(x) => s("int", x),
        ElementValue::Long(x) => s("long", x),
        ElementValue::Float(x) => s("float", x),
        ElementValue::Double(x) => s("double", x),
        ElementValue::Boolean(x) => s("boolean", x),
        ElementValue::String(x) => s("string", x),
        ElementValue::Enum { type_name, const_name } => V::N("el_enum", vec![i(type_name), i(const_name)]),
        ElementValue::Class(x) => s("class", x),
        ElementValue::Annotation(ref a) => V::N("el_annotation", vec![annotation(a)]),
        ElementValue::Array(ref v) => V::N("el_array", vec![l(v, element)]),
        #[allow(unreachable_patterns)]
        _ => V::N("unrecognised", vec![]),
    }
}

fn type_annotation(t: &TypeAnnotation) -> V {
    let ranges = |v: &Vec<LocalVariableTarget>| l(v, |x| V::N("range", vec![i(x.start), i(x.length), i(x.index)]));
    let target = match t.target_type {
        TargetType::TypeParameterClass(x) => vec![V::I(0x00), i(x)],
        TargetType::TypeParameterMethod(x) => vec![V::I(0x01), i(x)],
        TargetType::SuperType(x) => vec![V::I(0x10), i(x)],
        TargetType::TypeParameterBoundClass { type_parameter, bound_index } => {
            vec![V::I(0x11), i(type_parameter), i(bound_index)]
        }
        TargetType::TypeParameterBoundMethod { type_parameter, bound_index } => {
            vec![V::I(0x12), i(type_parameter), i(bound_index)]
        }
        TargetType::EmptyField => vec![V::I(0x13)],
        TargetType::EmptyReturn => vec![V::I(0x14)],
        TargetType::EmptyReceiver => vec![V::I(0x15)],
        TargetType::FormalParameter(x) => vec![V::I(0x16), i(x)],
        TargetType::Throws(x) => vec![V::I(0x17), i(x)],
        TargetType::LocalVariable(ref v) => vec![V::I(0x40), ranges(v)],
        TargetType::ResourceVariable(ref v) => vec![V::I(0x41), ranges(v)],
        TargetType::Catch(x) => vec![V::I(0x42), i(x)],
        TargetType::OffsetInstanceOf(x) => vec![V::I(0x43), i(x)],
        TargetType::OffsetNew(x) => vec![V::I(0x44), i(x)],
        TargetType::OffsetNewRef(x) => vec![V::I(0x45), i(x)],
        TargetType::OffsetRef(x) => vec![V::I(0x46), i(x)],
        TargetType::TypeArgumentCast { offset, type_argument } => vec![V::I(0x47), i(offset), i(type_argument)],
        TargetType::TypeArgumentConstructor { offset, type_argument } => vec![V::I(0x48), i(offset), i(type_argument)],
        TargetType::TypeArgumentMethod { offset, type_argument } => vec![V::I(0x49), i(offset), i(type_argument)],
        TargetType::TypeArgumentNewRef { offset, type_argument } => vec![V::I(0x4A), i(offset), i(type_argument)],
        TargetType::TypeArgumentRef { offset, type_argument } => vec![V::I(0x4B), i(offset), i(type_argument)],
        #[allow(unreachable_patterns)]
        _ => vec![],
    };
    let path = l(&t.target_path, |p| {
        let k = match p.path_kind {
            TypePathKind::ArrayType => 0,
            TypePathKind::NestedType => 1,
            TypePathKind::WildcardType => 2,
            TypePathKind::Type => 3,
        };
        V::N("step", vec![V::I(k), i(p.argument_index)])
    });
    V::N("type_annotation", vec![V::N("target", target), path, annotation(&t.annotation)])
}

fn verif(v: &VerificationType) -> V {
    let n = |k: &'static str| V::N(k, vec![]);
    match *v {
        VerificationType::Top => n("top"),
        VerificationType::Integer => n("integer"),
        VerificationType::Float => n("float"),
        VerificationType::Double => n("double"),
        VerificationType::Long => n("long"),
        VerificationType::Null => n("null"),
        VerificationType::UninitializedThis => n("uninitialized_this"),
        VerificationType::Object(x) => V::N("object", vec![i(x)]),
        VerificationType::Uninitialized(x) => V::N("uninitialized", vec![i(x)]),
        #[allow(unreachable_patterns)]
        _ => n("unrecognised"),
    }
}

fn frame(f: &StackMapFrame) -> V {
    match *f {
        StackMapFrame::Same { offset_delta } => V::N("same", vec![i(offset_delta)]),
        StackMapFrame::Same1 { offset_delta, ref stack } => V::N("same_1", vec![i(offset_delta), verif(stack)]),
        StackMapFrame::Chop { offset_delta, count } => V::N("chop", vec![i(offset_delta), i(count)]),
        StackMapFrame::Append { offset_delta, ref locals } => V::N("append", vec![i(offset_delta), l(locals, verif)]),
        StackMapFrame::Full { offset_delta, ref locals, ref stack } => {
            V::N("full", vec![i(offset_delta), l(locals, verif), l(stack, verif)])
        }
        #[allow(unreachable_patterns)]
        _ => V::N("unrecognised", vec![]),
    }
}

pub fn insn(x: &Instruction) -> V {
    use jbcrs::basic::Instruction::*;
    macro_rules! table {
        (unit: $($a:ident),*; one: $($b:ident),*; two: $($c:ident),*;) => {
            match *x {
                $( $a => V::N(stringify!($a), vec![]), )*
                $( $b(o) => V::N(stringify!($b), vec![i(o)]), )*
                $( $c(o, p) => V::N(stringify!($c), vec![i(o), i(p)]), )*
                NewArray(ref t) => V::N("newarray", vec![V::S(match *t {
                    ArrayType::Boolean => "boolean",
                    ArrayType::Char => "char",
                    ArrayType::Float => "float",
                    ArrayType::Double => "double",
                    ArrayType::Byte => "byte",
                    ArrayType::Short => "short",
                    ArrayType::Int => "int",
                    ArrayType::Long => "long",
                }.to_string())]),
                TableSwitch { default, low, high, ref offsets } => V::N(
                    "tableswitch",
                    vec![i(default), i(low), i(high), l(offsets, |o| i(*o))],
                ),
                LookupSwitch { default, ref offsets } => V::N(
                    "lookupswitch",
                    vec![
                        i(default),
                        V::L(offsets.iter().map(|(k, o)| V::N("case", vec![i(*k), i(*o)])).collect()),
                    ],
                ),
                #[allow(unreachable_patterns)]
                _ => V::N("unrecognised", vec![]),
            }
        };
    }
    table!(
        unit:
            NOP, AConstNull, IConstM1, IConst0, IConst1, IConst2, IConst3, IConst4, IConst5,
            LConst0, LConst1, FConst0, FConst1, FConst2, DConst0, DConst1, ILoad0, ILoad1, ILoad2,
            ILoad3, LLoad0, LLoad1, LLoad2, LLoad3, FLoad0, FLoad1, FLoad2, FLoad3, DLoad0, DLoad1,
            DLoad2, DLoad3, ALoad0, ALoad1, ALoad2, ALoad3, IALoad, LALoad, FALoad, DALoad, AALoad,
            BALoad, CALoad, SALoad, IStore0, IStore1, IStore2, IStore3, LStore0, LStore1, LStore2,
            LStore3, FStore0, FStore1, FStore2, FStore3, DStore0, DStore1, DStore2, DStore3,
            AStore0, AStore1, AStore2, AStore3, IAStore, LAStore, FAStore, DAStore, AAStore,
            BAStore, CAStore, SAStore, Pop, Pop2, Dup, DupX1, DupX2, Dup2, Dup2X1, Dup2X2, Swap,
            IAdd, LAdd, FAdd, DAdd, ISub, LSub, FSub, DSub, IMul, LMul, FMul, DMul, IDiv, LDiv,
            FDiv, DDiv, IRem, LRem, FRem, DRem, INeg, LNeg, FNeg, DNeg, IShL, LShL, IShR, LShR,
            IUShR, LUShR, IAnd, LAnd, IOr, LOr, IXOr, LXOr, I2L, I2F, I2D, L2I, L2F, L2D, F2I, F2L,
            F2D, D2I, D2L, D2F, I2B, I2C, I2S, LCmp, FCmpL, FCmpG, DCmpL, DCmpG, IReturn, LReturn,
            FReturn, DReturn, AReturn, Return, ArrayLength, AThrow, MonitorEnter, MonitorExit,
            BreakPoint, ImpDep1, ImpDep2;
        one:
            BIPush, SIPush, LDC, ILoad, LLoad, FLoad, DLoad, ALoad, IStore, LStore, FStore, DStore,
            AStore, IfEq, IfNE, IfLT, IfGE, IfGT, IfLE, IfICmpEq, IfICmpNE, IfICmpLT, IfICmpGE,
            IfICmpGT, IfICmpLE, IfACmpEq, IfACmpNE, GoTo, JSR, Ret, GetStatic, PutStatic, GetField,
            PutField, InvokeVirtual, InvokeSpecial, InvokeStatic, InvokeDynamic, New, ANewArray,
            CheckCast, InstanceOf, IfNull, IfNonNull;
        two:
            IInc, InvokeInterface, MultiANewArray;
    )
}
