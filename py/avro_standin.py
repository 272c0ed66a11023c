"""Stands in for fastavro 1.0 (not installed): the Avro container format as its
specification has it, with fastavro's rules for appending. It belongs to the
environment of the code under test, not to the oracle."""
import io
import json
import re
import struct
import zlib

PRIMITIVE = {"null", "boolean", "int", "long", "float", "double", "bytes", "string"}
NAME = re.compile(r"[A-Za-z_][A-Za-z0-9_]*\Z")
MAGIC = b"Obj\x01"
SYNC = b"smart-cache-sync"
BLOCK = 250


class SchemaParseException(Exception):
    pass


class UnknownType(Exception):
    pass


def parse_schema(schema):
    if isinstance(schema, dict) and "__fastavro_parsed" in schema:
        return schema
    parsed = _parse(schema, set())
    if isinstance(parsed, dict):
        parsed["__fastavro_parsed"] = True
    return parsed


def _parse(schema, names):
    if isinstance(schema, list):
        return [_parse(s, names) for s in schema]
    if isinstance(schema, str):
        if schema not in PRIMITIVE:
            raise UnknownType(schema)
        return schema
    kind = schema["type"]
    if kind == "array":
        return {"type": "array", "items": _parse(schema["items"], names)}
    if kind == "map":
        return {"type": "map", "values": _parse(schema["values"], names)}
    if kind == "record":
        name = schema["name"]
        for part in (schema.get("namespace", "") + "." + name).strip(".").split("."):
            if not NAME.match(part):
                raise SchemaParseException(f"{part} is not a name")
        full = (schema.get("namespace", "") + "." + name).strip(".") if "." not in name else name
        if full in names:
            raise SchemaParseException(f"redefined named type: {full}")
        names.add(full)
        fields, seen = [], set()
        for field in schema["fields"]:
            if not NAME.match(field["name"]) or field["name"] in seen:
                raise SchemaParseException(f"field {field['name']}")
            seen.add(field["name"])
            fields.append({"name": field["name"], "type": _parse(field["type"], names)})
        return {"type": "record", "name": full, "fields": fields}
    if isinstance(kind, (dict, list)):
        return _parse(kind, names)
    if kind not in PRIMITIVE:
        raise UnknownType(kind)
    return {"type": kind}


def _long(out, n):
    n = (n << 1) ^ (n >> 63)
    while n & ~0x7f:
        out.write(bytes([(n & 0x7f) | 0x80]))
        n >>= 7
    out.write(bytes([n]))


def _read_long(src):
    n = shift = 0
    while True:
        c = src.read(1)
        if not c:
            raise EOFError
        n |= (c[0] & 0x7f) << shift
        shift += 7
        if not c[0] & 0x80:
            return (n >> 1) ^ -(n & 1)


def _bytes(out, b):
    _long(out, len(b))
    out.write(b)


def _write(out, schema, v):
    kind = schema if isinstance(schema, str) else schema["type"]
    if kind == "null":
        if v is not None:
            raise TypeError(f"{v!r} is not null")
    elif kind == "boolean":
        if not isinstance(v, bool):
            raise TypeError(f"{v!r} is not a boolean")
        out.write(b"\1" if v else b"\0")
    elif kind in ("int", "long"):
        if not isinstance(v, int) or isinstance(v, bool):
            raise TypeError(f"{v!r} is not an {kind}")
        bits = 31 if kind == "int" else 63
        if not -(1 << bits) <= v < 1 << bits:
            raise OverflowError(f"{v} is not an {kind}")
        _long(out, v)
    elif kind in ("float", "double"):
        if not isinstance(v, (float, int)) or isinstance(v, bool):
            raise TypeError(f"{v!r} is not a {kind}")
        out.write(struct.pack("<f" if kind == "float" else "<d", v))
    elif kind == "bytes":
        if not isinstance(v, bytes):
            raise TypeError(f"{v!r} is not bytes")
        _bytes(out, v)
    elif kind == "string":
        if not isinstance(v, str):
            raise TypeError(f"{v!r} is not a string")
        _bytes(out, v.encode("utf-8"))
    elif kind == "array":
        if v:
            _long(out, len(v))
            for x in v:
                _write(out, schema["items"], x)
        _long(out, 0)
    elif kind == "map":
        if v:
            _long(out, len(v))
            for k, x in v.items():
                _write(out, "string", k)
                _write(out, schema["values"], x)
        _long(out, 0)
    else:
        for f in schema["fields"]:
            if f["name"] not in v:
                raise ValueError(f"no value for field {f['name']}")
            _write(out, f["type"], v[f["name"]])


def _read(src, schema):
    kind = schema if isinstance(schema, str) else schema["type"]
    if kind == "null":
        return None
    if kind == "boolean":
        return src.read(1) == b"\1"
    if kind in ("int", "long"):
        return _read_long(src)
    if kind == "float":
        return struct.unpack("<f", src.read(4))[0]
    if kind == "double":
        return struct.unpack("<d", src.read(8))[0]
    if kind == "bytes":
        return src.read(_read_long(src))
    if kind == "string":
        return src.read(_read_long(src)).decode("utf-8")
    if kind in ("array", "map"):
        res = [] if kind == "array" else {}
        while True:
            n = _read_long(src)
            if n == 0:
                return res
            for _ in range(n):
                if kind == "array":
                    res.append(_read(src, schema["items"]))
                else:
                    k = _read(src, "string")
                    res[k] = _read(src, schema["values"])
    return {f["name"]: _read(src, f["type"]) for f in schema["fields"]}


class reader:
    def __init__(self, fo):
        self.fo = fo
        if fo.read(4) != MAGIC:
            raise ValueError("cannot read header - is it an avro file?")
        self.metadata = _read(fo, {"type": "map", "values": "bytes"})
        if fo.read(16) != SYNC:
            raise ValueError("expected sync marker not found")
        self.writer_schema = _parse(json.loads(self.metadata["avro.schema"]), set())
        self.block, self.left = None, 0

    def __iter__(self):
        return self

    def __next__(self):
        while not self.left:
            try:
                self.left = _read_long(self.fo)
            except EOFError:
                raise StopIteration from None
            data = self.fo.read(_read_long(self.fo))
            self.block = io.BytesIO(data if self.metadata["avro.codec"] == b"null" else zlib.decompress(data))
            if self.fo.read(16) != SYNC:
                raise ValueError("expected sync marker not found")
        self.left -= 1
        return _read(self.block, self.writer_schema)


def _strip(schema):
    return {k: v for k, v in schema.items() if k != "__fastavro_parsed"} if isinstance(schema, dict) else schema


def writer(fo, schema, records, codec="null", sync_interval=BLOCK):
    schema = parse_schema(schema)
    if fo.seekable() and fo.tell() != 0:
        if not fo.readable():
            raise ValueError("When appending to an avro file you must use the 'a+' mode, not just 'a'")
        fo.seek(0)
        old = reader(fo)
        if old.writer_schema != _strip(schema):
            raise ValueError("Provided schema does not match file schema")
        codec = old.metadata["avro.codec"].decode()
        fo.seek(0, 2)
    else:
        if codec not in ("null", "deflate", "snappy", "bzip2"):
            raise ValueError(f"Unrecognized codec: {codec!r}")
        fo.write(MAGIC)
        _write(fo, {"type": "map", "values": "bytes"}, {"avro.codec": codec.encode(), "avro.schema": json.dumps(_strip(schema)).encode()})
        fo.write(SYNC)
    block, n = io.BytesIO(), 0

    def flush():
        data = block.getvalue()
        if codec != "null":
            data = zlib.compress(data, 1)
        _long(fo, n)
        _bytes(fo, data)
        fo.write(SYNC)

    for record in records:
        _write(block, schema, record)
        n += 1
        if block.tell() >= sync_interval:
            flush()
            block, n = io.BytesIO(), 0
    if n:
        flush()
    fo.flush()
