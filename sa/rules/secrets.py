"""M03: storage that held key material is overwritten before it is given back."""
from base import Base, Result
from engine import V, mk, base_off, Report
from ir import AnalysisError
import loops

FIELDS = {("wickr_cipher_key", "key_data"), ("wickr_ec_key", "pri_data"), ("wickr_kdf_result", "hash"),
          ("wickr_stream_key", "evolution_key"), ("wickr_transport_root_key", "secret")}


def secret_path(b):
    """b is the byte storage of a buffer kept in a field that holds a key"""
    if not isinstance(b, V) or b.k != "L" or b.a[1] != 8:
        return None
    x = b.a[0]
    if isinstance(x, V) and x.k == "L" and x.field and (x.field[0], x.field[1]) in FIELDS:
        return "%s.%s" % x.field
    return None


def secret_label(l):
    if l.k == "lab":
        if l.a[0] == "secret":
            return l.a[1]
        if l.a[0] in ("secretdh", "secretkdf", "secretec"):
            return {"secretdh": "key agreement or HKDF output", "secretkdf": "password hash", "secretec": "encoded EC private key"}[l.a[0]]
        return None
    if l.k == "C":
        return secret_path(l.a[0])
    return None


class Secrets(Base):
    def on_release(self, st, b, o, I, calleeobj, content):
        self.site("release", I)
        if self.in_proto_free:
            return
        old = calleeobj.content if calleeobj is not None else None
        if old and any(secret_label(l) for l in old):
            return          # the callee is where it was lost
        self.oblig(st, b, content, I, "released")

    def oblig(self, st, b, content, I, how):
        s = sorted({x for x in (secret_label(l) for l in content or ()) if x})
        self.oblige(not s, "secret-not-wiped", I, "storage holding %s is %s without being overwritten" % (", ".join(s), how),
                    "%s:%s" % (how, ",".join(s)), st)

    def on_store(self, st, I, b, off, size, v):
        if I.field in FIELDS and isinstance(v, V):
            vb, vo = base_off(st.norm(v))
            if isinstance(vb, V) and vo == 0 and vb.k in ("new", "arg", "L"):
                by = st.norm(self.read(st, vb, 8, 8, ("wickr_buffer", "bytes")))
                if isinstance(by, V):
                    self.site("key_field_store", I)
                    self.set_content(st, base_off(by)[0], [mk("lab", "secret", "%s.%s" % I.field)])

    def dead_local(self, st, b, o, I):
        if o.content:
            self.site("local", I)
            self.oblig(st, b, o.content, I, "a local that goes out of scope")


def run(m, tier):
    e = Secrets(m, tier)
    e.run(e.all_functions(), required=False)
    r = Result("taint dataflow: storage that received key material (generated keys, ECDH and KDF outputs, private key encodings, "
               "the key fields of the library's objects, and copies of those) reaches no release and no end of scope while the "
               "taint is there; only a full-length overwrite (wickr_zero / OPENSSL_cleanse) or encryption removes it")
    r.take(e, {"secret-not-wiped"})
    f = m.funcs.get("wickr_zero")
    if f is None:
        raise AnalysisError("anchor function wickr_zero is gone")
    ok, bad = loops.byte_fill(f)
    r.cover(wiping_primitive_recognised=int(ok))
    if bad:
        r.reports.append(Report("wipe-primitive", "wickr_zero", "memory.c:%d" % m.loc(f.dbg)[1], bad, bad))
    r.engine_cover(e)
    r.floor("release sites", len(e.sites.get("release", ())), 200)
    r.assumptions = ["memory of the protobuf-c runtime (unpacked messages) is out of scope", "OpenSSL wipes its own contexts"]
    return r
