"""
Written once: the table of documented settings (type, allowed values, limits, default) which check C10
compares the behaviour of the configuration parser with. It is committed and not regenerated by checks.
"""
import json
import sys

import yaml

d = yaml.safe_load(open(sys.argv[1] + "/openamundsen/data/configschema.yml"))
out = {}


def walk(s, path):
    for k, v in s.items():
        p = path + [k]
        if v.get("type") == "dict" and "schema" in v:
            walk(v["schema"], p)
            continue
        e = {x: v[x] for x in ("type", "allowed", "min", "max", "default", "nullable", "required", "minlength", "maxlength") if x in v}
        if isinstance(v.get("schema"), dict) and v["schema"].get("type") in ("number", "float", "string", "integer"):
            e["items"] = v["schema"]["type"]
        out[".".join(p)] = e


walk(d, [])
classes = yaml.safe_load(open(sys.argv[1] + "/openamundsen/data/land_cover_class_params.yml"))["classes"]
json.dump(dict(settings=out, land_cover={str(k): v for k, v in classes.items()}), open("vh/data/config_reference.json", "w"), indent=1)
print(len(out))
