"""C15: descriptions load back, schemas are enforced."""

import json
import string

from cerberus import Validator

from vtelem.classes.serdes import Serializable, SerializableParams
from vtelem.classes.user_enum import UserEnum, from_enum, user_enum
from vtelem.enums.primitive import Primitive
from vtelem.registry.enum_retry import EnumRegistry
from vtelem.schema.manager import SchemaManager
from vtelem.serializables.primitive import (
    SerializablePrimitive,
    from_primitive,
    get_all,
)
from vtelem.types.frame import FrameType, MessageType

from vsym.api import case

BOUNDS = {
    "quick": "enumerations of up to 3 entries with any integers in [0, 255] "
    "and any names of 1 or 2 printable ASCII characters; registries of up to "
    "3 enumerations with any ids in [0, 1000]; all primitives; documents of "
    "each kind with any text of 2 ASCII characters in any place, any field "
    "missing, unexpected or of another type; documents without a kind with "
    "any values of up to 3 fields",
    "thorough": "4 entries, names of up to 3 characters, 4 enumerations",
}
OUTSIDE = (
    "names that end with a newline (which the checks of the schema ignore); "
    "the text of the description itself (that the json module decodes what "
    "it encodes is assumed; replays use the real module)"
)
ASSUMPTIONS = [
    "cerberus checks the rules of the schemas as documented (type, regex, "
    "keysrules, valuesrules, required, unknown fields)",
    "json.loads(json.dumps(x)) is x with text for keys",
]

LOWER = [ord(x) for x in string.ascii_lowercase]
UNDER = LOWER + [ord("_")]


def managed():
    """Schemas of the package, as strict as they can be."""
    manager = SchemaManager()
    manager.load_package(require_all=True, allow_unknown=False)
    return manager


def only(cx, text, chars):
    """Whether text has at least one character and only such."""
    if len(text) == 0:
        return False
    return cx.all(
        cx.any([ord(char) == x for x in chars]) for char in text
    )


def no_newline(cx, text):
    """Text that doesn't end with a newline (which cerberus ignores)."""
    if len(text):
        cx.assume(cx.neg(text[len(text) - 1] == "\n"))
    return text


def entries(cx, num, size, high=255):
    """Distinct integers and distinct names (in any case)."""
    keys = [cx.int(f"key{i}", 0, high) for i in range(num)]
    names = [
        cx.text(f"name{i}", size if i == 0 else 1, 0x20, 0x7E)
        for i in range(num)
    ]
    for i in range(num):
        for j in range(i):
            cx.assume(keys[i] != keys[j])
            cx.assume(cx.neg(names[i].lower() == names[j].lower()))
    return keys, names


def round_trip(cx, obj, indent=None, hashed=True):
    """Load an object's description."""
    text = obj.json_str(indent)
    loaded = obj.load_str(text)
    cx.check(type(loaded) is type(obj), "the same kind")
    cx.check(loaded == obj, "what is loaded equals the original")
    cx.check(obj == loaded, "the original equals what is loaded")
    cx.check(loaded.json_str(indent) == text, "the same description")
    cx.check(loaded.name == obj.name, "the same name")
    if hashed:
        cx.check(hash(loaded) == hash(obj), "the same hash")
    cx.check(loaded.valid == obj.valid, "equally valid")
    return loaded


@case(
    quick={"num": [1, 2, 3], "size": [1, 2]},
    thorough={"num": [1, 2, 3, 4], "size": [1, 2, 3]},
    how=["values", "params", "manager"],
    default=["none", "last"],
)
def enums(cx, num, size, how, default):
    """Enumerations."""
    keys, names = entries(cx, num, size)
    text = None if default == "none" else names[-1]
    indent = cx.choice("indent", [None, 2])
    title = cx.choice("title", ["SomeEnum", "x_y", "HTTPThing2"])
    manager = managed()
    if how == "manager":
        text = names[0] if text is None else text
        enum = UserEnum(
            {
                "name": title,
                "mappings": dict(zip(keys, names)),
                "default": text,
            },
            manager=manager,
        )
    else:
        enum = user_enum(
            title,
            dict(zip(keys, names)),
            text,
            manager if how == "params" else None,
        )
    loaded = round_trip(cx, enum, indent)
    cx.check(loaded.default == enum.default, "default")
    wanted = names[0] if text is None else text
    cx.check(loaded.default == wanted.lower(), "the default's name")
    for key, name in zip(keys, names):
        cx.check(loaded.get_value(name) == key, "value of a name")
        cx.check(loaded.get_str(key) == enum.get_str(key), "name of a value")
        cx.check(loaded.get_str(key).lower() == name.lower(), "name given")
    cx.check(len(list(loaded)) == num, "no other names")


@case(ids=["next", "any"], kind=["one", "two", "wrong type"])
def equality(cx, ids, kind):
    """Enumerations are equal if and only if they describe the same."""
    keys, names = entries(cx, 2, 1)
    enum = user_enum("a", dict(zip(keys, names)))
    other_keys = [cx.int(f"other{i}", 0, 255) for i in range(2)]
    cx.assume(other_keys[0] != other_keys[1])
    if ids == "next":
        cx.assume(other_keys[0] == keys[0])
    other_names = [cx.text(f"text{i}", 1, 0x61, 0x7A) for i in range(2)]
    cx.assume(cx.neg(other_names[0] == other_names[1]))
    other = user_enum(
        "a" if kind != "two" else "b", dict(zip(other_keys, other_names))
    )
    if kind == "wrong type":
        cx.check(not enum == Serializable(dict(enum.data)), "of one kind")
        cx.check(not enum == 5, "not a description")
        return
    if kind == "two":
        cx.check(not enum == other, "names differ")
        return
    lower = [x.lower() for x in names]
    straight = cx.all(
        [x == y for x, y in zip(keys, other_keys)]
        + [x == y for x, y in zip(lower, other_names)]
    )
    # the default is the first
    cx.check((enum == other) == straight, "equal if and only if the same")


@case(
    quick={"num": [0, 1, 2, 3]},
    thorough={"num": [0, 1, 2, 3, 4]},
    schemas=[False, True],
    indent=[None, 2],
)
def registries(cx, num, schemas, indent):
    """Registries of enumerations, and what is added to them later."""
    manager = managed() if schemas else None
    reg = (
        EnumRegistry({"mappings": {}}, manager=manager)
        if cx.choice("how", ["data", "none"]) == "data"
        else EnumRegistry(manager=manager)
    )
    titles = [cx.text(f"title{i}", 2, 0x61, 0x7A) for i in range(num + 1)]
    for i, title in enumerate(titles):
        for old in titles[:i]:
            cx.assume(cx.neg(title == old))
    members = []
    for i, title in enumerate(titles):
        key = cx.int(f"key{i}", 0, 255)
        text = cx.text(f"value{i}", 1, 0x61, 0x7A)
        data = {"name": title, "mappings": {key: text}, "default": None}
        members.append(UserEnum(data))
    last = members.pop()
    for i, enum in enumerate(members):
        cx.check(reg.add(enum) == i, "ids count up")
    loaded = round_trip(cx, reg, indent)
    cx.check(loaded.valid, "it conforms to its schema")
    for i, enum in enumerate(members):
        cx.check(loaded.get_enum(i) == enum, "the same by id")
        cx.check(reg.get_enum(i) is enum, "the very same")
        both = [cx.catch(x.add, enum)[0] for x in (reg, loaded)]
        cx.check(not both[0] and not both[1], "names are unique")
    ok, _ = cx.catch(loaded.get_enum, num)
    cx.check(not ok, "no other id")
    cx.check(loaded == reg, "nothing changed")
    cx.check(loaded.add(last) == num, "the next id")
    cx.check(not loaded == reg, "an enumeration more")
    cx.check(reg.add(last) == num, "the same next id")
    cx.check(loaded == reg, "the same again")
    cx.check(loaded.json_str() == reg.json_str(), "described the same")
    cx.check(cx.free_locks(), "no lock is held")


@case(num=[1, 2, 3])
def any_ids(cx, num):
    """Registries with any ids."""
    ids = [cx.int(f"id{i}", 0, 1000) for i in range(num)]
    for i in range(num):
        for j in range(i):
            cx.assume(ids[i] != ids[j])
    titles = "abc"[:num]
    data = {
        "mappings": dict(zip(ids, titles)),
        "enums": {
            x: {"name": x, "mappings": {i: "v"}, "default": "v"}
            for i, x in enumerate(titles)
        },
    }
    reg = EnumRegistry(data, manager=managed())
    cx.check(reg.valid, "it conforms")
    loaded = round_trip(cx, reg)
    for i, text in zip(ids, titles):
        cx.check(loaded.get_enum(i).name == text, "by its id")
    new = user_enum("another", {0: "x"})
    got = loaded.add(new)
    cx.check(cx.all(got > x for x in ids), "a new id")
    cx.check(cx.any(got == x + 1 for x in ids), "the next id")
    cx.check(reg.add(new) == got, "the same for the original")
    cx.check(loaded == reg, "still equal")
    cx.check(loaded.get_enum(got) is new, "by the new id")


@case(prim=list(Primitive), schemas=[False, True])
def primitives(cx, prim, schemas):
    """Primitives."""
    manager = managed() if schemas else None
    if schemas and prim.value.min == prim.value.max:
        manager = SchemaManager()
        manager.load_package(require_all=True)
    obj = from_primitive(prim, manager=manager)
    cx.check(obj.valid, "it conforms")
    loaded = round_trip(cx, obj, cx.choice("indent", [None, 2]))
    cx.check(loaded.primitive is prim, "the primitive")
    want = {
        "name": prim.value.name,
        "size": prim.value.size,
        "signed": prim.value.signed,
        "integer": prim.value.type is int,
        "type": "serializable_primitive",
    }
    if prim.value.type is int:
        bits = 8 * prim.value.size - int(prim.value.signed)
        want["max"] = 2**bits - 1
        want["min"] = -(2**bits) if prim.value.signed else 0
    cx.check(obj.data == want, "what it describes")
    cx.check(json.loads(obj.json_str()) == want, "what its text describes")
    everything = get_all(manager=manager)
    cx.check(len(everything) == len(list(Primitive)), "all of them")
    cx.check(loaded in everything, "this one")


@case(enum=[FrameType, MessageType])
def from_enums(cx, enum):
    """Enumerations of the protocol."""
    loaded = round_trip(cx, from_enum(enum), cx.choice("indent", [None, 2]))
    for elem in enum:
        cx.check(loaded.get_str(elem.value) == elem.name.lower(), "name")
    reg = EnumRegistry()
    got = reg.add_from_enum(enum)
    cx.check(round_trip(cx, reg).get_enum(got) == loaded, "registered")


WRONG = [None, 5, True, 1.5, "text", [], {}, {"1": 2}, {"a": "b"}]
KINDS = ["user_enum", "primitive", "registry"]


def good_doc(kind):
    """A description that conforms."""
    if kind == "user_enum":
        return {
            "type": "user_enum",
            "name": "an_enum",
            "default": "a",
            "mappings": {"0": "a", "12": "bc"},
        }
    if kind == "primitive":
        return {
            "type": "serializable_primitive",
            "name": "int8",
            "size": 1,
            "signed": True,
            "integer": True,
            "min": -128,
            "max": 127,
        }
    enum = good_doc("user_enum")
    return {
        "type": "enum_registry",
        "mappings": {"3": "an_enum"},
        "enums": {"an_enum": enum},
    }


def loader(kind, manager, how):
    """An object to load descriptions with."""
    cls = {
        "user_enum": UserEnum,
        "primitive": SerializablePrimitive,
        "registry": EnumRegistry,
    }[kind]
    data = good_doc(kind)
    if how == "params":
        return cls(data, SerializableParams(schema=cls.schema(manager)))
    return cls(data, manager=manager)


def conforms(cx, kind, doc):
    """Whether a description obeys the schema of its kind."""
    fields = {
        "user_enum": ["type", "name", "default", "mappings"],
        "primitive": ["type", "name", "size", "signed", "integer"],
        "registry": ["type", "mappings", "enums"],
    }[kind]
    more = ["min", "max"] if kind == "primitive" else []
    if not all(x in doc for x in fields):
        return False
    if not all(x in fields + more for x in doc):
        return False

    def is_map(val, keys):
        if not isinstance(val, dict):
            return False
        if not keys:
            return True
        try:
            for key in val:
                int(key)
        except ValueError:
            return False
        return True

    conds = []
    if kind == "user_enum":
        if not is_map(doc["mappings"], True):
            return False
        for text in doc["mappings"].values():
            if not isinstance(text, str):
                return False
            conds.append(only(cx, text, LOWER))
        if not isinstance(doc["name"], str):
            return False
        conds.append(only(cx, doc["name"], UNDER))
        conds.append(doc["type"] == "user_enum")
        # (a missing default is replaced)
        if doc["default"] is not None:
            if not isinstance(doc["default"], str):
                return False
    elif kind == "primitive":
        conds.append(isinstance(doc["name"], str))
        conds.append(doc["type"] == "serializable_primitive")
        conds.append(isinstance(doc["size"], int))
        conds.append(isinstance(doc["signed"], bool))
        conds.append(isinstance(doc["integer"], bool))
        for name in more:
            if name in doc:
                conds.append(isinstance(doc[name], int))
    else:
        conds.append(doc["type"] == "enum_registry")
        if not is_map(doc["mappings"], True):
            return False
        if not is_map(doc["enums"], False):
            return False
        conds.extend(isinstance(x, str) for x in doc["mappings"].values())
        conds.extend(isinstance(x, dict) for x in doc["enums"].values())
    return cx.all(conds)


def load_any(cx, kind, doc, how):
    """A description is refused, or is valid only if it conforms."""
    good = conforms(cx, kind, doc)
    base = loader(kind, managed(), how)
    cx.check(base.valid, "a good description")
    text = json.dumps(doc)
    ok, got = cx.catch(base.load_str, text)
    if not ok:
        cx.observe("refused", True)
        return None
    cx.check(got.valid == good, "valid if and only if it conforms")
    return got


@case(
    kind=KINDS,
    field=["type", "name", "default", "mappings", "size", "min", "enums",
           "signed", "integer", "extra"],
    how=["params", "manager"],
)
def malformed(cx, kind, field, how):
    """Descriptions with a field that is missing, unexpected or odd."""
    doc = good_doc(kind)
    if field not in doc and field != "extra":
        cx.reach("not a field")
        return
    val = cx.choice("value", ["missing"] + WRONG)
    if val == "missing":
        if field == "extra" or field == "min":
            return
        del doc[field]
        if field == "type":
            # it is what it is loaded as
            got = load_any_typed(cx, kind, doc, how)
            cx.check(got.valid, "of the kind it is loaded as")
            return
        if kind == "registry" and field in ("enums", "mappings"):
            # (nothing is registered)
            doc["mappings" if field == "enums" else "enums"] = {}
            got = load_any_typed(cx, kind, doc, how)
            cx.check(got.valid, "no enumerations")
            return
    else:
        doc[field] = val
    load_any(cx, kind, doc, how)


def load_any_typed(cx, kind, doc, how):
    """Load what lacks something that is added."""
    return loader(kind, managed(), how).load_str(json.dumps(doc))


@case(
    quick={"size": [0, 1, 2]},
    thorough={"size": [0, 1, 2, 3]},
    kind=KINDS,
    field=["type", "name", "value", "default", "extra"],
    how=["params", "manager"],
)
def any_text(cx, kind, field, size, how):
    """Descriptions with any text anywhere."""
    doc = good_doc(kind)
    text = no_newline(cx, cx.text("text", size, 0, 0x7F))
    if field == "value":
        if kind == "user_enum":
            doc["mappings"]["12"] = text
        elif kind == "registry":
            doc["enums"]["an_enum"]["mappings"]["12"] = text
            doc["enums"]["an_enum"]["name"] = text
        else:
            return
    elif field == "extra":
        if size == 0:
            return
        doc[text + "x"] = 5
    elif field in doc:
        doc[field] = text
    else:
        return
    got = load_any(cx, kind, doc, how)
    if got is not None and field == "name" and kind == "user_enum":
        cx.check(got.name == text, "its name")


@case(
    quick={"num": [1, 2]},
    thorough={"num": [1, 2, 3]},
    size=[1, 2],
    how=["manager", "params"],
)
def any_enum(cx, num, size, how):
    """Enumerations with any integers and text, when they are created."""
    keys = [cx.int(f"key{i}", -300, 300) for i in range(num)]
    names = [
        no_newline(cx, cx.text(f"name{i}", size, 0, 0x7F)) for i in range(num)
    ]
    title = no_newline(cx, cx.text("title", 1, 0, 0x7F))
    for i in range(num):
        for j in range(i):
            cx.assume(keys[i] != keys[j])
    doc = {
        "name": title,
        "mappings": dict(zip(keys, names)),
        "default": None,
    }
    manager = managed()

    def build():
        """Create it."""
        if how == "manager":
            return UserEnum(doc, manager=manager)
        return UserEnum(
            doc, SerializableParams(schema=UserEnum.schema(manager))
        )

    ok, enum = cx.catch(build)
    if not ok:
        return
    good = cx.all(
        [only(cx, x, LOWER) for x in names] + [only(cx, title, UNDER)]
    )
    cx.check(enum.valid == good, "valid if and only if it conforms")
    round_trip(cx, enum, hashed=False)


VALUES = ["int", "bool", "text", "none", "list", "map"]


@case(first=VALUES, second=VALUES)
def plain(cx, first, second):
    """Descriptions without a kind of their own."""

    def make(name, kind):
        if kind == "int":
            return cx.int(name, -(2**63), 2**64)
        if kind == "bool":
            return cx.bool(name)
        if kind == "text":
            return cx.text(name, 2)
        if kind == "list":
            return [cx.int(name, 0, 9), cx.text(name + "t", 1), None]
        if kind == "map":
            return {"a": cx.int(name, 0, 9), "b": {"c": cx.bool(name + "b")}}
        return None

    data = {
        "first": make("one", first),
        "second": make("two", second),
    }
    if cx.choice("named", [False, True]):
        data["name"] = cx.text("name", 1)
    obj = Serializable(data)
    cx.check(obj.data["type"] == "serializable", "its type")
    cx.check(
        obj.name == (data["name"] if "name" in data else "Serializable"),
        "its name",
    )
    loaded = round_trip(cx, obj, hashed="name" not in data)
    cx.check(cx.same(loaded.data, data), "the same data")


@case(kind=["integer", "string", "boolean"])
def schema(cx, kind):
    """A schema given with an object."""
    rules = {"type": {"type": "string"}, "field": {"type": kind}}
    params = SerializableParams(schema=Validator(rules))
    val = {
        "int": cx.int("int", -5, 5),
        "bool": cx.bool("bool"),
        "text": cx.text("text", 1),
        "none": None,
    }[cx.choice("value", ["int", "bool", "text", "none"])]
    obj = Serializable({"field": val}, params)
    want = {
        "integer": isinstance(val, int),
        "string": isinstance(val, str),
        "boolean": isinstance(val, bool),
    }[kind]
    cx.check(obj.valid == want, "valid if and only if it conforms")
    cx.check(obj.validate(False) == want, "the same when asked")
    round_trip(cx, obj)


@case()
def managers(cx):
    """Schemas are found by the name of a class."""
    manager = managed()
    for cls in (UserEnum, EnumRegistry, SerializablePrimitive):
        cx.check(manager.get(cls) is manager[cls.__name__], "by its name")
        cx.check(cls.schema(manager) is manager.get(cls), "by its class")
    ok, _ = cx.catch(manager.get, Serializable)
    cx.check(not ok, "no schema")
