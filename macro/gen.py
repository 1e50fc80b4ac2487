"""Generates the enums of the C23 fixture (directed shapes plus random ones) and the programs that must be refused."""
import json, random

CB = "    ReceiveIcaCallback(::cw_ica_controller::types::callbacks::IcaControllerCallbackMsg),"
M = "#[cw_ica_controller_derive::ica_callback_execute]"
CW = "#[cosmwasm_schema::cw_serde]"
DER = '#[derive(Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]\n#[serde(rename_all = "snake_case")]'


def shape(name, body, arms, samples, attrs=CW, pre="", vis="pub ", gen="", use="", where="", schema=True, stack="", trailing=True, cbpre=""):
    return dict(name=name, body=body, arms=arms, samples=samples, attrs=attrs, pre=pre, vis=vis, gen=gen, use=use, where=where,
                schema=schema and "cw_serde" in attrs, stack=stack, trailing=trailing, cbpre=cbpre)


def directed():
    S = []
    S.append(shape("Empty", "", [], []))
    S.append(shape("Unit", "A, Bb", ["A", "Bb"], ['"a"', '"bb"']))
    S.append(shape("UnitNoComma", "Only", ["Only"], ['"only"'], trailing=False))
    S.append(shape("EmptyStruct", "Go {}", ["Go {}"], ['{"go":{}}']))
    S.append(shape("Tuple", "One(u64), Two(u64, String), New(cosmwasm_std::Uint128)", ["One(..)", "Two(..)", "New(..)"],
                   ['{"one":7}', '{"two":[1,"x"]}', '{"new":"340282366920938463463374607431768211455"}']))
    S.append(shape("Struct", "Send { to: String, amount: Option<u64>, raw: cosmwasm_std::Binary, list: Vec<u8> }", ["Send { .. }"],
                   ['{"send":{"to":"a","amount":null,"raw":"AQI=","list":[1,2]}}', '{"send":{"to":"","amount":9,"raw":"","list":[]}}']))
    S.append(shape("Mixed", "/// unit\nFoo,\n/// tuple\nBar(u64),\n/// struct\n#[doc = \"more\"]\nBaz { /// field\n foo: u64 }", ["Foo", "Bar(..)", "Baz { .. }"],
                   ['"foo"', '{"bar":3}', '{"baz":{"foo":18446744073709551615}}'], pre="/// An enum\n/// with docs.\n"))
    S.append(shape("Attrs", "#[serde(rename = \"renamed\", alias = \"other\")] A { #[serde(default)] x: u32, #[serde(skip)] y: u32, #[serde(rename = \"zz\")] z: bool }, #[allow(non_camel_case_types)] under_score, #[serde(skip)] Hidden",
                   ["A { .. }", "under_score", "Hidden"], ['{"renamed":{"x":3,"zz":true}}', '{"other":{"zz":false}}', '"under_score"'],
                   pre="#[allow(clippy::large_enum_variant)]\n#[non_exhaustive]\n"))
    S.append(shape("PlainDerive", "A, B(u8), C { d: String }", ["A", "B(..)", "C { .. }"], ['"a"', '{"b":255}', '{"c":{"d":"\\u0000\\u00e9"}}'], attrs=DER))
    S.append(shape("PlainDeriveAfterDocs", "Aa", ["Aa"], ['"aa"'], attrs="/// docs between\n" + DER + "\n#[serde(deny_unknown_fields)]"))
    S.append(shape("Private", "A", ["A"], ['"a"'], vis="", schema=False))
    S.append(shape("Crate", "A(Vec<Option<String>>)", ["A(..)"], ['{"a":[null,"x"]}'], vis="pub(crate) ", schema=False))
    S.append(shape("Raw", "r#Type { r#type: String, r#fn: u8 }", ["Type { .. }"], ['{"type":{"type":"t","fn":1}}']))
    S.append(shape("Cfg", "#[cfg(all())] Present, #[cfg(any())] Absent", ["Present"], ['"present"']))
    S.append(shape("Gen", "A(T), B { t: Option<T> }", ["A(..)", "B { .. }"], ['{"a":5}', '{"b":{"t":6}}'], attrs=DER, gen="<T>", use="<u64>"))
    S.append(shape("GenBound", "A(T), B { u: U }", ["A(..)", "B { .. }"], ['{"a":"x"}', '{"b":{"u":[1]}}'], attrs=DER, gen="<T: Clone, U = u8>",
                   use="<String, Vec<u8>>", where=" where U: Clone + PartialEq"))
    bound = "#[serde(bound(serialize = \"T::Out: serde::Serialize\", deserialize = \"T::Out: serde::de::DeserializeOwned\"))]"
    S.append(shape("Where", "A(T::Out), B { u: Vec<T::Out> }", ["A(..)", "B { .. }"], ['{"a":4}', '{"b":{"u":[1,2]}}'], attrs=DER + "\n" + bound, gen="<T>",
                   use="<super::support::Pick>", where=" where T: super::support::HasOut"))
    S.append(shape("Life", "A(std::borrow::Cow<'a, str>)", ["A(..)"], ['{"a":"text"}'], attrs=DER, gen="<'a>", use="<'static>"))
    S.append(shape("ConstGen", "A(Wrap<N>)", ["A(..)"], ['{"a":{"v":4}}'], attrs=DER, gen="<const N: usize>", use="<3>"))
    S.append(shape("Disc", "A = 3, B = 9", ["A", "B"], ['"a"', '"b"'], pre="#[repr(u8)]\n"))
    S.append(shape("DiscExpr", "A = 1 + 1, B(u8) = 100", ["A", "B(..)"], ['"a"', '{"b":2}'], pre="#[repr(u16)]\n", attrs=DER))
    S.append(shape("OwnableBelow", "A", ["A", "UpdateOwnership(..)"], ['"a"', '{"update_ownership":"accept_ownership"}'], stack="#[cw_ownable::cw_ownable_execute]\n"))
    S.append(shape("OwnableAbove", "A { x: u8 }", ["A { .. }", "UpdateOwnership(..)"], ['{"a":{"x":1}}', '{"update_ownership":"renounce_ownership"}'], pre="#[cw_ownable::cw_ownable_execute]\n"))
    S.append(shape("Nested", "Inner(Box<super::support::Tree>), Map(std::collections::BTreeMap<String, u8>)", ["Inner(..)", "Map(..)"],
                   ['{"inner":{"kids":[{"kids":[]}]}}', '{"map":{"k":1}}'], attrs=DER))
    S.append(shape("Fn", "F(Option<Vec<(u8, String)>>), G([u8; 4])", ["F(..)", "G(..)"], ['{"f":[[1,"a"]]}', '{"g":[1,2,3,4]}']))
    S.append(shape("Right", "Right, Left(u8), IcaControllerCallbackMsg(String), ReceiveCallback(u8)", ["Right", "Left(..)", "IcaControllerCallbackMsg(..)", "ReceiveCallback(..)"],
                   ['"right"', '{"left":1}', '{"ica_controller_callback_msg":"x"}', '{"receive_callback":2}']))
    S.append(shape("Near", "ReceiveIcacallback(u32), RECEIVEIcaCallback, ReceiveIcaCallbacks { a: u8 }", ["ReceiveIcacallback(..)", "RECEIVEIcaCallback", "ReceiveIcaCallbacks { .. }"],
                   ['{"receive_icacallback":5}', '"r_e_c_e_i_v_e_ica_callback"', '{"receive_ica_callbacks":{"a":1}}']))
    S.append(shape("Shadow", "A", ["A"], ['"a"'], cbpre="mod cw_ica_controller { pub mod types {} }\nmod types {}\n#[allow(unused)] struct IcaControllerCallbackMsg;\n"))
    S.append(shape("ShadowStd", "A(u8)", ["A(..)"], ['{"a":1}'], attrs=DER, cbpre="#[allow(unused)] struct Box;\n"))
    S.append(shape("Many", ", ".join(f"V{i} {{ f{i}: u64 }}" for i in range(120)), [f"V{i} {{ .. }}" for i in range(120)], ['{"v0":{"f0":1}}', '{"v119":{"f119":2}}']))
    return S


TYPES = [("u8", ["0", "255"]), ("u64", ["0", "18446744073709551615"]), ("i32", ["-5", "7"]), ("bool", ["true", "false"]),
         ("String", ['""', '"text \\" \\\\ \\n"', '"é漢"']), ("Option<u32>", ["null", "3"]), ("Vec<String>", ["[]", '["a","b"]']),
         ("cosmwasm_std::Uint128", ['"1"', '"340282366920938463463374607431768211455"']), ("cosmwasm_std::Binary", ['""', '"AAEC"']),
         ("Option<Vec<Option<bool>>>", ["null", "[null,true]"]), ("cosmwasm_std::Coin", ['{"denom":"x","amount":"5"}']),
         ("cosmwasm_std::Addr", ['"someone"']), ("Box<u16>", ["12"]), ("(u8, String)", ['[1,"z"]']), ("cosmwasm_std::Timestamp", ['"123"'])]
WORDS = ["Alpha", "Beta", "SendIt", "Close", "Open2", "XYZ", "Receive", "ReceiveIca", "IcaCallback", "Callback", "UpdateOwner", "A", "LongVariantNameWithManyWords", "T1", "Ok", "Err", "Some", "None2", "Default", "ReceiveIcaCallbacks", "ReceiveIcacallback", "RECEIVEIcaCallback", "ReceiveIcaCallback2", "Right", "Left"]


def snake(w):
    out = ""
    for i, c in enumerate(w):
        if i and c.isupper():
            out += "_"
        out += c.lower()
    return out


def rand_shape(r, i):
    n = r.randrange(0, 7)
    names = r.sample(WORDS, n)
    body, arms, samples = [], [], []
    for w in names:
        k = r.randrange(3)
        pre = r.choice(["", "/// doc\n", "#[doc(hidden)] ", "#[allow(dead_code)] "])
        if k == 0:
            body.append(pre + w); arms.append(w); samples.append(json.dumps(snake(w)))
        elif k == 1:
            m = r.randrange(1, 4)
            ts = [r.choice(TYPES) for _ in range(m)]
            body.append(f"{pre}{w}({', '.join(t for t, _ in ts)})"); arms.append(f"{w}(..)")
            vals = [r.choice(v) for _, v in ts]
            samples.append("{" + json.dumps(snake(w)) + ":" + (vals[0] if m == 1 else "[" + ",".join(vals) + "]") + "}")
        else:
            m = r.randrange(0, 5)
            ts = [r.choice(TYPES) for _ in range(m)]
            body.append(pre + w + " { " + ", ".join(f"field_{j}: {t}" for j, (t, _) in enumerate(ts)) + " }"); arms.append(f"{w} {{ .. }}")
            samples.append("{" + json.dumps(snake(w)) + ":{" + ",".join(f'"field_{j}":{r.choice(v)}' for j, (_, v) in enumerate(ts)) + "}}")
    attrs = r.choice([CW, CW, DER])
    stack = ""
    if "cw_serde" in attrs and r.random() < 0.2:
        stack = "#[cw_ownable::cw_ownable_execute]\n"
        arms.append("UpdateOwnership(..)")
        samples.append('{"update_ownership":"accept_ownership"}')
    return shape(f"Rand{i}", ", ".join(body), arms, samples, attrs=attrs, stack=stack, vis=r.choice(["pub ", "pub(crate) "]),
                 pre=r.choice(["", "/// Documented.\n", "#[must_use]\n", "#[allow(clippy::all)]\n"]), trailing=r.random() < 0.5, schema=False)


def render(shapes):
    o = ["pub mod support {\n    #[derive(Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]\n    pub struct Tree { pub kids: Vec<Tree> }\n    pub trait HasOut { type Out; }\n    #[derive(Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]\n    pub struct Pick;\n    impl HasOut for Pick { type Out = u32; }\n}"]
    runs = []
    for s in shapes:
        body = s["body"] + ("," if s["trailing"] and s["body"] else "")
        wrap = "#[derive(Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]\npub struct Wrap<const N: usize> { pub v: u8 }\n" if "Wrap<" in body else ""
        sep = "" if not s["body"] else ","
        n = s["name"]
        for mod, kind in (("subject", 0), ("twin", 1)):
            body_ctl = s["body"] + sep + "\n" + CB
            decl = f"enum {n}{s['gen']}{s['where']}"
            pre, stack, attrs, vis = s["pre"], s["stack"], s["attrs"], s["vis"]
            inner = []
            if kind == 0:
                inner.append(f"{s['cbpre']}{wrap}#[cfg(not(feature = \"control\"))]\n{pre}{M}\n{stack}{attrs}\n{vis}{decl} {{\n{body}\n}}")
                inner.append(f"#[cfg(feature = \"control\")]\n{pre}{stack}{attrs}\n{vis}{decl} {{\n{body_ctl}\n}}")
                arms = "\n".join(f"        {n}::{a} => None," for a in s["arms"])
                inner.append(f"pub fn judge(out: &mut crate::Out, corpus: &[String]) {{\n"
                             f"    fn cb(t: {n}{s['use']}) -> Option<::cw_ica_controller::types::callbacks::IcaControllerCallbackMsg> {{\n        match t {{\n{arms}\n        {n}::ReceiveIcaCallback(m) => Some(m),\n        }}\n    }}\n"
                             f"    crate::judge::<{n}{s['use']}, super::twin_{n.lower()}::{n}{s['use']}>(out, \"{n}\", &[{', '.join(json.dumps(x, ensure_ascii=False) for x in s['samples'])}], corpus, cb);\n"
                             + (f"    crate::schema::<{n}{s['use']}, super::twin_{n.lower()}::{n}{s['use']}>(out, \"{n}\");\n" if s["schema"] else "") + "}")
                runs.append(f"    subject_{n.lower()}::judge(out, corpus);")
            else:
                v = "pub " if vis == "" else vis
                inner.append(f"{wrap}{pre}{stack}{attrs}\n{v}{decl} {{\n{body}\n}}")
            o.append(f"pub mod {mod}_{n.lower()} {{\n" + "\n".join(inner) + "\n}")
    o.append("pub fn run_all(out: &mut Out, corpus: &[String]) {\n" + "\n".join(runs) + "\n}")
    return "\n\n".join(o) + "\n"


def refused():
    """(name, attribute, item): must be refused with the attribute and accepted without it."""
    en = f"{CW}\npub enum E {{ A }}"
    R = []
    for i, a in enumerate(["(x)", "(x, y)", '("text")', "(x = 1)", "(x = \"y\")", "(x(y))", "(true)", "(5)", "(crate::a::b)", "(x,)"]):
        R.append((f"args{i}", a, en))
    R.append(("args_empty_enum", "(x)", "pub enum E {}"))
    for n, item in [("struct", "pub struct S { a: u8 }"), ("cw_struct", f"{CW}\npub struct S {{ pub a: u8 }}"), ("unit_struct", "pub struct S;"), ("tuple_struct", "pub struct S(u8);"),
                    ("generic_struct", "pub struct S<T>(pub T);"), ("empty_struct", "pub struct S {}"),
                    ("union", "pub union U { a: u8, b: u16 }"), ("fn", "pub fn f() {}"), ("trait", "pub trait T {}"), ("const", "pub const C: u8 = 1;"),
                    ("mod", "pub mod m { pub enum E { A } }"), ("type", "pub type T = u8;"), ("impl", "impl super::Base {}"), ("static", "pub static S: u8 = 1;"), ("use", "pub use std::vec::Vec;")]:
        R.append((n, "", item))
    return R


def generate(seed, count):
    r = random.Random(seed)
    return render(directed() + [rand_shape(r, i) for i in range(count)])


if __name__ == "__main__":
    import sys
    sys.stdout.write(generate(int(sys.argv[1]), int(sys.argv[2])))
