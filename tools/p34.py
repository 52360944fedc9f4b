#!/usr/bin/env python3
"""P34: random declarations with derive(PointType), allowed and forbidden ones, go through the compiler with the derive
macro of /repo. The forbidden ones must not compile (a repeated attribute name: must have no layout), the allowed ones
must compile, and their layout must have the names, datatypes, offsets, size and alignment of the type."""
import sys, os, random, json, subprocess, time, hashlib, shutil, re
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
START = time.time()
TIER = sys.argv[1] if len(sys.argv) > 1 else "quick"
SEED = int(os.environ.get("VERIF_SEED", "1"))
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EV = HERE + "/evidence"
ROUNDS = {"quick": 10, "thorough": 200}[TIER]
BUDGET = {"quick": 150, "thorough": 600}[TIER]
CHUNK = 160
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0", CARGO_TERM_COLOR="never", CARGO_TARGET_DIR=HERE + "/target")
for v in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_BUILD_RUSTFLAGS"):
    ENV.pop(v, None)

def none(why):
    print("NO VERDICT:", why)
    sys.exit(3)

# ------------------------------------------------------------------ the libraries
b = subprocess.run(["cargo", "+stable", "build", "--offline", "--locked", "--message-format=json", "--manifest-path", HERE + "/derivechk/Cargo.toml"],
                   env=ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
open(EV + "/P34.build.log", "w").write(b.stdout + b.stderr)
if b.returncode:
    print("\n".join(l for l in b.stderr.splitlines() if l.startswith("error"))[:2000])
    none("the libraries do not build against /repo (see evidence/P34.build.log)")
lib = {}
for l in b.stdout.splitlines():
    m = json.loads(l) if l.startswith("{") else {}
    if m.get("reason") == "compiler-artifact":
        for f in m["filenames"]:
            if f.endswith((".rlib", ".so")):
                lib[m["target"]["name"].replace("-", "_")] = f
try:
    EXT = [x for n in ("pasture_core", "pasture_derive", "nalgebra", "bytemuck") for x in ("--extern", f"{n}={lib[n]}")]
except KeyError as e:
    none(f"library {e} is missing")
built = time.time() - START

# ------------------------------------------------------------------ declarations
TY = [("u8","U8"),("i8","I8"),("u16","U16"),("i16","I16"),("u32","U32"),("i32","I32"),("u64","U64"),("i64","I64"),("f32","F32"),("f64","F64"),
      ("Vector3<u8>","Vec3u8"),("Vector3<u16>","Vec3u16"),("Vector3<i32>","Vec3i32"),("Vector3<f32>","Vec3f32"),("Vector3<f64>","Vec3f64"),("Vector4<u8>","Vec4u8")]
NAMES = {"POSITION_3D":"Position3D","INTENSITY":"Intensity","RETURN_NUMBER":"ReturnNumber","NUMBER_OF_RETURNS":"NumberOfReturns",
 "CLASSIFICATION_FLAGS":"ClassificationFlags","SCANNER_CHANNEL":"ScannerChannel","SCAN_DIRECTION_FLAG":"ScanDirectionFlag","EDGE_OF_FLIGHT_LINE":"EdgeOfFlightLine",
 "CLASSIFICATION":"Classification","SCAN_ANGLE_RANK":"ScanAngleRank","SCAN_ANGLE":"ScanAngle","USER_DATA":"UserData","POINT_SOURCE_ID":"PointSourceID",
 "COLOR_RGB":"ColorRGB","GPS_TIME":"GpsTime","NIR":"NIR","WAVE_PACKET_DESCRIPTOR_INDEX":"WavePacketDescriptorIndex","WAVEFORM_DATA_OFFSET":"WaveformDataOffset",
 "WAVEFORM_PACKET_SIZE":"WaveformPacketSize","RETURN_POINT_WAVEFORM_LOCATION":"ReturnPointWaveformLocation","WAVEFORM_PARAMETERS":"WaveformParameters","POINT_ID":"PointID","NORMAL":"Normal"}
BAD_TY = ["bool", "char", "usize", "isize", "u128", "i128", "()", "[u8; 3]", "[f64; 3]", "(u8, u8)", "(f64,)", "Vector3<i8>", "Vector3<i16>", "Vector3<u32>",
          "Vector3<u64>", "Vector3<i64>", "Vector3<bool>", "Vector4<i8>", "Vector4<u16>", "Vector4<i32>", "Vector4<f32>", "Vector4<f64>", "Vector2<f64>", "Vector2<u8>",
          "Vector1<u8>", "Vector5<u8>", "Vector6<f64>", "Matrix3<f64>", "Point3<f64>", "Point3<u8>", "Option<u8>", "PhantomData<u8>", "&'static u8", "&'static str", "*const u8", "fn(u8) -> u8",
          "Wrapped", "NonZeroU8", "Complex<f32>"]
BAD_ATTR = ["", "#[pasture]", "#[pasture()]", '#[pasture("Own")]', "#[pasture(5)]", "#[pasture(attribute = 5)]", "#[pasture(attribute = b\"Own\")]", "#[pasture(attribute = 'x')]",
            "#[pasture(attribute = true)]", "#[pasture(attribute = 1.5)]", '#[pasture(name = "Own")]', '#[pasture(Attribute = "Own")]', '#[pasture(attributes = "Own")]', "#[pasture(BUILTIN_NOPE)]",
            "#[pasture(BUILTIN_)]", "#[pasture(builtin_intensity)]", "#[pasture(Intensity)]", "#[pasture(INTENSITY)]", "#[pasture(POSITION_3D)]", "#[pasture(BUILTIN_POSITION)]", "#[pasture(BUILTIN_Intensity)]",
            '#[pasture = "Own"]', "#[pasture(a::b)]", "#[pasture(attribute)]", '#[pasture(attribute("Own"))]', "#[pasture(BUILTIN_INTENSITY())]", '#[pasture(BUILTIN_INTENSITY = "Intensity")]',
            "#[pasture(attributes::BUILTIN_INTENSITY)]", "#[pasture(BUILTIN_INTENSITY, BUILTIN_NIR)]", "#[pasture(BUILTIN_INTENSITY, BUILTIN_INTENSITY)]",
            '#[pasture(attribute = "Own", attribute = "Other")]', '#[pasture(BUILTIN_INTENSITY, attribute = "Own")]', '#[pasture(attribute = "Own", optional)]', '#[pasture("Own", BUILTIN_INTENSITY)]', "DOUBLE", "DOUBLE_SAME"]
BAD_REPR = ["", "#[repr(Rust)]", "#[repr(align(4))]", "#[repr(align(16))]", "#[repr(transparent)]"]
GOOD_REPR = ["#[repr(C)]"] * 6 + ["#[repr(packed)]", "#[repr(C, packed)]", "#[repr(packed, C)]", "#[repr(C)]\n#[repr(packed)]", "#[repr(packed)]\n/// Text\n#[repr(C)]", "#[repr(packed(1))]", "#[repr(packed(2))]",
             "#[repr(packed(4))]", "#[repr(packed(8))]", "#[repr(C, packed(2))]", "#[repr(packed(4), C)]", "#[repr(C, packed(16))]", "#[repr(C)]\n#[repr(packed(2))]", "#[repr(C, align(8))]",
             "#[repr(align(32), C)]", "#[repr(C)]\n#[repr(align(16))]", "#[repr(align(2))]\n#[repr(C)]"]
OWN = ["Own", "own attribute", "Ä ö", "日本", "x_1", "1", "", "a.b/c", "position3d", "Position3D ", "{}", "%s", "BUILTIN_INTENSITY", "attribute", "\\\\", "\\\"", "\\n", "\\u{1F600}"]

def attr(R, used, k):
    """(attribute text, name) that is not used so far"""
    while True:
        if R.random() < 0.55:
            b = R.choice(list(NAMES)); t, n = (f"#[pasture(BUILTIN_{b})]", NAMES[b])
            if R.random() < 0.1: t = f"#[pasture( BUILTIN_{b}, )]"
        else:
            o = R.choice(OWN + list(NAMES.values()))
            if R.random() < 0.6: o += str(k)
            n = o.replace("\\u{1F600}", "\U0001F600").replace("\\n", "\n").replace('\\"', '"').replace("\\\\", "\\")
            t = f'#[pasture(attribute = "{o}")]'
            if "\\" not in o and R.random() < 0.15: t = f'#[pasture(attribute = r#"{o}"#)]'
        if n not in used:
            used.add(n)
            return t, n

FID = ["x", "r#type", "position", "layout", "std", "value_", "_a", "ä", "r#fn", "Self_", "u8", "len", "offset"]
def declare(R):
    """One declaration: dict of text, kind (valid or the reason why not), fields, name"""
    d = {"generics": "", "kw": "struct", "kind": "valid"}
    n = R.choice([1, 1, 2, 2, 3, 3, 4, 5, 7, 9, 12, 0]) if R.random() < 0.97 else R.randrange(13, 24)
    fs, used = [], set()
    for i in range(n):
        t = R.choice(TY)
        a, nm = attr(R, used, i)
        ty = R.choice(["nalgebra::", "::nalgebra::", "crate::vectors::"]) + t[0] if t[0].startswith("V") and R.random() < 0.15 else t[0]
        fs.append({"ty": ty, "dt": t[1], "attr": a, "name": nm, "vis": R.choice(["", "", "pub ", "pub(crate) "])})
    tup = R.random() < 0.15
    rep = R.choice(GOOD_REPR)
    if R.random() < 0.5 and n:
        k = R.choice(["type", "type", "type", "attr", "attr", "attr", "repr", "generic", "enum", "union", "duplicate"])
        j = R.randrange(n)
        f = fs[j]
        if k == "type":
            f["ty"] = R.choice(BAD_TY); d["kind"] = "field of type " + f["ty"]
        elif k == "attr":
            a = R.choice(BAD_ATTR)
            if a == "DOUBLE":
                x = attr(R, used, 77)[0]; f["attr"] += " " + x; a = "two attributes"
            elif a == "DOUBLE_SAME":
                f["attr"] += " " + f["attr"]; a = "the attribute twice"
            else:
                f["attr"] = a
            d["kind"] = "field with " + (a or "no attribute")
        elif k == "repr":
            rep = R.choice(BAD_REPR)
            if rep == "#[repr(transparent)]":
                fs = fs[:1]
                j = 0
            d["kind"] = "declared with " + (rep or "no representation")
        elif k == "generic":
            d["generics"] = R.choice(["const N: usize", "const B: bool", "const N: u8, const M: u8"]); d["kind"] = "generic over " + d["generics"]
        elif k == "enum":
            d["kw"] = "enum"; d["kind"] = "enum"
        elif k == "union":
            d["kw"] = "union"; d["kind"] = "union"; tup = False
        elif k == "duplicate" and n > 1:
            i = R.choice([x for x in range(n) if x != j])
            f["name"] = fs[i]["name"]
            f["attr"] = fs[i]["attr"]
            b = [b for b in NAMES if NAMES[b] == f["name"]]
            if b: f["attr"] = R.choice([f"#[pasture(BUILTIN_{b[0]})]", f'#[pasture(attribute = "{f["name"]}")]'])
            d["kind"] = "duplicate attribute name"
    ids = []
    for i in range(len(fs)):
        x = R.choice(FID) if R.random() < 0.3 else f"f{i}"
        ids.append(x if x not in ids else f"g{i}")
    if tup: ids = [str(i) for i in range(len(fs))]
    d["fields"], d["ids"] = fs, ids
    extra = 0
    for f in fs:
        if R.random() < 0.15:
            e = R.choice(["#[allow(dead_code)]", "#[doc = \"The value\"]", "#[doc(hidden)]", "#[cfg(all())]", "#[cfg_attr(all(), allow(dead_code))]"])
            f["attr"] = f["attr"] + " " + e if R.random() < 0.5 else e + " " + f["attr"]
            extra += 1
    d["extra"] = extra
    name = d["name"] = R.choice(["P", "Point", "T1", "PointType_", "point", "Ä", "Cow", "Layout", "Vec", "PointLayout", "r#Box"])
    g = f"<{d['generics']}>" if d["generics"] else ""
    u = "<" + ", ".join(re.findall(r"const (\w+)", d["generics"])) + ">" if g else ""
    head = ["#[derive(Clone, Copy, PointType)]"] + rep.split("\n")
    if R.random() < 0.3: head.insert(R.randrange(len(head) + 1), R.choice(["/// A point", "#[allow(dead_code)]", "#[doc(hidden)]", "#[must_use]", "#[derive()]"]))
    if d["kw"] == "enum":
        head = [h for h in head if "align" not in h or True]
        rp = R.choice(["#[repr(C)]", "#[repr(u8)]", "#[repr(C, u8)]"])
        body = " { " + R.choice(["A, B", "A", "A(u8), B", "A { x: u16 }"]) + " }"
        if R.random() < 0.5: body = " { A(#[pasture(BUILTIN_INTENSITY)] u16), B }"
        head = ["#[derive(Clone, Copy, PointType)]", rp]
    elif tup:
        body = "(" + ", ".join(f"{f['attr']} {f['vis']}{f['ty']}" for f in fs) + ");"
    else:
        body = " {\n" + "".join(f"    {f['attr']} {f['vis']}{i}: {f['ty']},\n" for f, i in zip(fs, ids)) + "}"
    pub = R.choice(["pub ", "pub(crate) "])
    d["text"] = "\n".join(head) + f"\n{pub}{d['kw']} {name}{g}{body}\n"
    d["src"] = d["text"] + "".join(f"unsafe impl{g} bytemuck::{t} for {name}{u} {{}}\n" for t in ("Zeroable", "AnyBitPattern", "NoUninit"))
    return d

USE = ("use pasture_derive::PointType;\n#[allow(unused_imports)] use nalgebra::{Vector1, Vector2, Vector3, Vector4, Vector5, Vector6, Matrix3, Point3, Complex};\n"
       "#[allow(unused_imports)] use core::{marker::PhantomData, num::NonZeroU8};\n#[allow(unused_imports)] use crate::Wrapped;\n")
def unit(ds, keep):
    """source text and, per line, the declaration it belongs to"""
    out, owner = ["#![allow(warnings)]", "#[derive(Clone, Copy)] #[repr(C)] pub struct Wrapped(pub u8);", "mod vectors { pub use nalgebra::{Vector3, Vector4}; }"], [None, None, None]
    for k in keep:
        d = ds[k]
        t = f"mod m{k} {{\n" + USE + d["src"] + f"pub fn show() {{\n    let r = std::panic::catch_unwind(|| <{d['name']} as pasture_core::layout::PointType>::layout());\n"
        real = ", ".join(f"std::mem::offset_of!({d['name']}, {i})" for i in d["ids"])
        t += (f"    let real: std::vec::Vec<usize> = std::vec![{real}];\n    crate::show({k}, r.ok(), real, std::mem::size_of::<{d['name']}>(), std::mem::align_of::<{d['name']}>());\n}}\n}}")
        ls = t.split("\n")
        out += ls; owner += [k] * len(ls)
    tail = '''fn show(k: usize, l: Option<pasture_core::layout::PointLayout>, real: Vec<usize>, size: usize, align: usize) {
    let l = match l { Some(l) => l, None => { println!("{}\\tpanic", k); return } };
    let same = std::panic::catch_unwind(|| {
        let m: Vec<_> = l.attributes().map(|a| a.clone()).collect();
        l == pasture_core::layout::PointLayout::from_members_and_alignment(&m, align as u64)
    }).unwrap_or(false);
    let a: Vec<String> = l.attributes().map(|a| format!("{}|{:?}|{}|{}", a.name().bytes().map(|b| format!("{:02x}", b)).collect::<String>(), a.datatype(), a.offset(), a.size())).collect();
    println!("{}\\t{:?}\\t{}\\t{}\\t{}\\t{}", k, real, size, l.size_of_point_entry(), same, a.join(","));
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
'''.rstrip("\n").split("\n") + [f"    m{k}::show();" for k in keep] + ["}"]
    out += tail; owner += [None] * len(tail)
    return "\n".join(out) + "\n", owner

def spans(s):
    while s:
        yield s
        s = (s.get("expansion") or {}).get("span")

def compile(ds, keep, path, emit):
    text, owner = unit(ds, keep)
    open(path + ".rs", "w").write(text)
    cmd = ["rustc", "+stable", "--edition", "2018", "--error-format=json", "-C", "debuginfo=0", "-C", "opt-level=0", "-L", "dependency=" + HERE + "/target/debug/deps"] + EXT
    cmd += ["--emit=metadata", "--crate-type", "bin", "-o", path + ".rmeta"] if not emit else ["--crate-type", "bin", "-o", path + ".bin"]
    try:
        p = subprocess.run(cmd + [path + ".rs"], env=ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=240)
    except subprocess.TimeoutExpired:
        return None, {}
    bad = {}
    for l in p.stderr.splitlines():
        if not l.startswith("{"): continue
        m = json.loads(l)
        if m.get("level") != "error": continue
        hit = None
        for s in m.get("spans", []):
            for x in spans(s):
                if x["file_name"] == path + ".rs" and 0 < x["line_start"] <= len(owner):
                    o = owner[x["line_start"] - 1]
                    if o is not None and (hit is None or s.get("is_primary")): hit = o
        if hit is not None: bad.setdefault(hit, m["message"])
    return p.returncode, bad

def chunk(job):
    rnd, w, tmp = job
    R = random.Random(f"P34 {SEED} {rnd} {w}")
    ds = [declare(R) for _ in range(CHUNK)]
    path = f"{tmp}/c{rnd}_{w}"
    keep, refused, rounds = list(range(CHUNK)), {}, 0
    while True:
        rounds += 1
        rc, bad = compile(ds, keep, path, False)
        if rc is None or rounds > 60: return ds, refused, {}, "the compiler did not end"
        if rc == 0: break
        if not bad: return ds, refused, {}, "the compiler failed without naming a declaration"
        refused.update(bad)
        keep = [k for k in keep if k not in bad]
    rc, bad = compile(ds, keep, path, True)
    if rc: return ds, refused, {}, "linking failed"
    try:
        p = subprocess.run([path + ".bin"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=120)
    except subprocess.TimeoutExpired:
        return ds, refused, {}, "the program did not end"
    got = {}
    for l in p.stdout.splitlines():
        f = l.split("\t")
        got[int(f[0])] = f[1:]
    for x in (".rs", ".rmeta", ".bin"):
        try: os.remove(path + x)
        except OSError: pass
    if set(got) != set(keep): return ds, refused, got, f"the program ended with {p.returncode} after {len(got)} of {len(keep)} layouts"
    return ds, refused, got, None

def judge(d, refused, got):
    """(signature, text) if the declaration was not treated as it must be"""
    dup = d["kind"] == "duplicate attribute name"
    if d["kind"] == "valid" and refused is not None:
        return "allowed declaration refused", refused
    if d["kind"] != "valid" and refused is None and not (dup and got and got[0] == "panic"):
        return "accepted: " + d["kind"], "layout " + str(got)
    if d["kind"] != "valid": return None
    if got[0] == "panic": return "layout of an allowed declaration panics", ""
    real, size, lsize, same, attrs = json.loads(got[0]), got[1], got[2], got[3], got[4]
    want = ",".join(f"{f['name'].encode().hex()}|{f['dt']}|{o}" for f, o in zip(d["fields"], real))
    have = ",".join(a.rsplit("|", 1)[0] for a in attrs.split(",")) if attrs else ""
    if want != have: return "members of the layout", f"layout has {have}, the type {want}"
    if size != lsize: return "size of the layout", f"layout {lsize}, type {size}"
    if same != "true": return "alignment of the layout", ""
    return None

tmp = f"{HERE}/target/p34"
shutil.rmtree(tmp, ignore_errors=True)
os.makedirs(tmp)
events, distinct, total, fresh, incon, samples = {}, set(), 0, {}, [], []
known = {}
try:
    for l in open(HERE + "/known-findings.txt"):
        if l.startswith("finding: property=P34\t"):
            f = l.rstrip("\n").split("\t"); known[f[1]] = f[2] if len(f) > 2 else ""
except OSError: pass
seen_known = set()
done = 0
with ThreadPoolExecutor(8) as ex:
    for rnd in range(ROUNDS):
        if rnd and time.time() - START > BUDGET: break
        for w, (ds, refused, got, why) in enumerate(ex.map(chunk, [(rnd, w, tmp) for w in range(8)])):
            if why: incon.append(f"round {rnd} part {w}: {why}")
            for k, d in enumerate(ds):
                if k not in refused and k not in got: continue
                total += 1
                key = re.sub(r"\s+", " ", d["kind"])
                cls = "allowed" if d["kind"] == "valid" else "forbidden: " + ("field type" if key.startswith("field of") else "field attribute" if key.startswith("field with") else "representation" if key.startswith("declared") else key.split(" over")[0])
                events[cls] = events.get(cls, 0) + 1
                if d["kind"] == "valid" and d["extra"]: events["fields with other attributes"] = events.get("fields with other attributes", 0) + 1
                out = "refused by the compiler" if k in refused else "no layout" if got[k][0] == "panic" else "layout compared"
                events[out] = events.get(out, 0) + 1
                if len(d["fields"]) > 1: distinct.add(hashlib.sha256(d["text"].encode()).hexdigest())
                if len(samples) < 3 and len(d["fields"]) > 1: samples.append({"declaration": d["text"], "kind": d["kind"], "outcome": out})
                v = judge(d, refused.get(k), got.get(k))
                if v:
                    if v[0] in known: seen_known.add(v[0])
                    else: fresh.setdefault(v[0], (rnd, w, k, d, v[1]))
            done += 1
        if len(fresh) > 20: break
shutil.rmtree(tmp, ignore_errors=True)
for s in sorted(seen_known): print(f"KNOWN-FINDING: property=P34 {known[s] or s}")
os.makedirs(EV + "/replay", exist_ok=True)
for s, (rnd, w, k, d, text) in sorted(fresh.items()):
    path = f"{EV}/replay/P34-{hashlib.sha256(s.encode()).hexdigest()[:16]}.txt"
    open(path, "w").write(f"property: P34\nsignature: {s}\nreplay: VERIF_SEED={SEED} {HERE}/run.sh P34 {TIER} (round {rnd}, part {w}, declaration {k})\nexpected: {d['kind']}\nobserved: {text}\n\n{d['text']}")
    print(f"{s}: {text[:300]}\n{d['text'][:600]}")
    print(f"VIOLATION property=P34 replay={path}")
wall = time.time() - START
json.dump({"property": "P34", "tier": TIER, "seed": SEED, "level": "exploration", "coverage": {
    "evaluations": total, "distinct_nontrivial": len(distinct),
    "rule": "random declarations with derive(PointType): structs of all representations, field types, attributes, names, visibilities and forms, every second one with one thing that the documentation forbids; each is compiled, and the layouts of those that compile are compared with the type; distinct by text, non-trivial: two fields or more",
    "events_observed": dict(sorted(events.items())), "samples": samples, "inconclusive": incon, "seconds": {"build": round(built, 1), "run": round(wall - built, 1)}},
    "violations": len(fresh), "wall_s": round(wall, 3)}, open(EV + "/P34.json", "w"), indent=1)
for i in incon: print("INCONCLUSIVE:", i)
print(f"P34: {total} declarations, {len(distinct)} distinct non-trivial, {events}, {wall:.0f} s")
if fresh: sys.exit(1)
need = [e for e in ("allowed", "forbidden: field type", "forbidden: field attribute", "forbidden: representation", "forbidden: generic", "forbidden: enum", "forbidden: union",
                    "forbidden: duplicate attribute name", "refused by the compiler", "layout compared") if not events.get(e)]
if need or len(incon) * 2 > done: none(f"the run observed too little: missing {need}, {len(incon)} of {done} parts inconclusive")
