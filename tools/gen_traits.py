#!/usr/bin/env python3
"""Generates random interface traits (a pure function of the seed) for C26.
usage: gen_traits.py SEED OUT   (SEED 'none': an empty table)"""
import random, sys
seed, out = sys.argv[1], sys.argv[2]
WORDS = ("owner of get set balance token transfer from to approve uri total supply mint burn batch id hash "
         "value is can pay start end role admin x y max preview safe data erc20 v2 on received p256").split()
LEAF = [("Address", "address"), ("U256", "uint256"), ("bool", "bool"), ("u8", "uint8"), ("u16", "uint16"),
        ("u32", "uint32"), ("u64", "uint64"), ("u128", "uint128"), ("String", "string"), ("Bytes", "bytes"),
        ("B256", "bytes32"), ("FixedBytes<4>", "bytes4"), ("FixedBytes<20>", "bytes20"), ("i32", "int32"),
        ("i64", "int64"), ("U64", "uint64"), ("U128", "uint128")]
def typ(r, d=0):
    k = r.random()
    if d < 2 and k < .2:
        a, b = typ(r, d + 1); return f"Vec<{a}>", f"{b}[]"
    if d < 2 and k < .25:
        n = r.randint(1, 5); a, b = typ(r, d + 1); return f"[{a}; {n}]", f"{b}[{n}]"
    if d < 1 and k < .32:
        l = [typ(r, d + 1) for _ in range(r.randint(2, 3))]
        return "(" + ", ".join(x for x, _ in l) + ")", "(" + ",".join(y for _, y in l) + ")"
    return r.choice(LEAF)
def ret(r):
    k = r.random()
    if k < .3: return ""
    if k < .6: return " -> " + r.choice(["U256", "bool", "Address"])
    return " -> Result<" + r.choice(["U256", "bool", "()"]) + ", Self::Error>"
def camel(n):
    w = n.strip("_").split("_")
    return w[0] + "".join(x.capitalize() for x in w[1:])
rows = []
if seed != "none":
    r = random.Random(f"traits-{seed}")
    for i in range(140):
        nf = r.choice([1, 1, 2, 2, 3, 3, 4, 5, 6, 8, 12])
        used, sigs, fns, impls, neederr = set(), [], [], [], False
        while len(fns) < nf:
            name = "_".join(r.choice(WORDS) for _ in range(r.randint(1, 4)))
            if name in used or name in ("is", "of", "on", "to", "from", "x_"): continue
            args = [typ(r) for _ in range(r.choice([0, 1, 1, 2, 2, 3, 4, 6]))]
            sol = camel(name); attr = []
            if r.random() < .3:
                sol = r.choice([camel("_".join(r.choice(WORDS) for _ in range(r.randint(1, 3)))), "tokenURI", "DOMAIN_SEPARATOR",
                                "onERC721Received", "_hidden", "a$b", sol + "1", r.choice(sigs).split("(")[0] if sigs else "same"])
                attr.append(f'#[selector(name = "{sol}")]')
            sig = f"{sol}({','.join(s for _, s in args)})"
            if sig in sigs: continue
            used.add(name); sigs.append(sig)
            if r.random() < .3: attr.insert(r.randint(0, len(attr)), "/// A documented function.")
            if r.random() < .2: attr.insert(r.randint(0, len(attr)), "#[allow(unused_variables)]")
            recv = r.choice(["&self", "&self", "&mut self", "&mut self", None])
            ps = ([recv] if recv else []) + [f"a{j}: {t}" for j, (t, _) in enumerate(args)]
            rt = ret(r); neederr |= "Self::Error" in rt
            head = f"fn {name}({', '.join(ps)}){rt}"
            body = " { unimplemented!() }"
            if r.random() < .3: fns.append("\n".join(attr + [head + body]))
            else: fns.append("\n".join(attr + [head + ";"])); impls.append(head + body)
        items = list(fns)
        if neederr or r.random() < .2:
            items.insert(r.randint(0, len(items)), "type Error: Into<Vec<u8>>;"); impls.append("type Error = Vec<u8>;")
        if r.random() < .1:
            items.insert(r.randint(0, len(items)), "const OTHER: u32 = 7;")
        vis = r.choice(["pub ", "pub ", "", "pub(crate) "])
        rows.append((vis, items, impls, sigs))
    rows.sort(key=lambda x: (len(x[3]), sum(map(len, x[3]))))
with open(out, "w") as f:
    f.write("// generated by tools/gen_traits.py\n")
    for i, (vis, items, impls, sigs) in enumerate(rows):
        f.write(f"#[interface_id]\n{vis}trait G{i} {{\n" + "\n".join(items) + "\n}\n")
        f.write(f"struct M{i};\nimpl G{i} for M{i} {{\n" + "\n".join(impls) + "\n}\n")
    f.write("pub const ROWS: &[Row] = &[\n")
    for i, (vis, items, impls, sigs) in enumerate(rows):
        src = f"trait G{i} {{ " + " ".join(x.replace("\n", " ") for x in items) + " }"
        f.write(f"Row {{ src: r##\"{src}\"##, got: <M{i} as G{i}>::INTERFACE_ID, sigs: &[{', '.join('r#' + chr(34) + s + chr(34) + '#' for s in sigs)}] }},\n")
    f.write("];\n")
