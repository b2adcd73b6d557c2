"""Runs a plan of library calls and commands in a fresh process: ambientdriver.py PLAN RESULTS."""
import io
import json
import sys
import warnings


def plain(x):
    if isinstance(x, (set, frozenset)):
        return sorted(plain(v) for v in x)
    if isinstance(x, dict):
        return [[plain(k), plain(v)] for k, v in x.items()]
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if x is None or isinstance(x, (str, int, bool)):
        return x
    if hasattr(x, "to_str"):
        return x.to_str()
    if hasattr(x, "configs"):
        return [x.namespace, [[f.name, plain(f.values), f.multi_value] for f in x.configs]]
    return repr(x)


def main():
    with open(sys.argv[1], "rb") as f:
        job = json.loads(f.read())
    sys.path[:0] = job["path"]
    import variantlib.api as api
    from variantlib.commands.main import main as command
    from variantlib.models.variant import VariantDescription, VariantProperty
    from variantlib.plugins.loader import EntryPointPluginLoader, ListPluginLoader, PluginLoader
    from variantlib.variants_json import VariantsJson
    from variantlib.pyproject_toml import VariantPyProjectToml
    from variantlib.configuration import VariantConfiguration

    def desc(props):
        return VariantDescription([VariantProperty(*p) for p in props])

    def load(path, kind=VariantsJson):
        if kind is VariantPyProjectToml:
            import pathlib
            return kind.from_path(pathlib.Path(path))
        with open(path, "rb") as f:
            return kind(json.loads(f.read()))

    def cli(*args):
        real = sys.stdout, sys.stderr
        raw = io.BytesIO()
        out = sys.stdout = io.TextIOWrapper(raw, encoding=real[0].encoding, errors=real[0].errors,
                                            newline="")
        sys.stderr = io.TextIOWrapper(io.BytesIO(), encoding=real[1].encoding, errors=real[1].errors)
        code = 0
        try:
            command(list(args))
        except SystemExit as e:
            code = e.code
        except Exception as e:  # noqa: BLE001
            code = type(e).__name__
        finally:
            out.flush()
            sys.stdout, sys.stderr = real
        return [code, raw.getvalue().decode(out.encoding, "replace")]

    def select(path, **kw):
        with open(path, "rb") as f:
            doc = json.loads(f.read())
        return api.get_variants_by_priority(variants_json=doc, **kw)

    def configs(path, kind, which, **kw):
        with PluginLoader(load(path, VariantPyProjectToml if kind == "pyproject" else VariantsJson),
                          **kw) as ld:
            return [ld.namespaces, ld.plugin_api_values, getattr(ld, which)()]

    def validate(path, props):
        r = api.validate_variant(desc(props), load(path))
        return sorted([str(k), v] for k, v in r.results.items())

    def installed():
        with EntryPointPluginLoader() as ld:
            return [ld.namespaces, {k: d.name for k, d in ld.plugin_provider_packages.items()},
                    ld.get_all_configs()]

    ops = {
        "cli": cli, "select": select, "configs": configs, "validate": validate, "installed": installed,
        "check": lambda path, props, **kw: api.check_variant_supported(
            vdesc=desc(props), variant_info=load(path), **kw),
        "hash": lambda props: [desc(props).hexdigest, api.get_variant_label(desc(props)),
                               [p.to_str() for p in desc(props).properties]],
        "rewrite": lambda path: load(path).to_str(),
        "environment": lambda label, props, info: {
            k: v for k, v in api.get_variant_environment_dict(desc(props), label).items()}
        if hasattr(api, "get_variant_environment_dict") else None,
        "requires": lambda path, *a, **kw: sorted(load(path).get_provider_requires(*a, **kw)),
        "config": lambda: (lambda c: [c.namespace_priorities, c.feature_priorities,
                                      c.property_priorities])(VariantConfiguration.get_config()),
    }
    def parse(texts, docs):
        from variantlib.models.variant import VariantFeature
        from variantlib.models.provider import ProviderConfig, VariantFeatureConfig
        from variantlib.variant_dist_info import VariantDistInfo
        out = []
        for t in texts:
            for f in (VariantFeature.from_str, VariantProperty.from_str, lambda t: VariantProperty("a", "b", t),
                      lambda t: VariantFeature(t, "a"), lambda t: desc([("a", "b", t), ("a", "b", "c")]),
                      lambda t: VariantFeatureConfig("f", [t, "x"], False), lambda t: ProviderConfig(t, []),
                      lambda t: api.get_variant_label(desc([("a", "b", "c")]), t),
                      lambda t: api.get_variant_label(desc([]), t)):
                try:
                    out.append(plain(f(t)))
                except Exception as e:  # noqa: BLE001
                    out.append(type(e).__name__)
        for d in docs:
            for f in (VariantsJson, lambda d: VariantDistInfo(json.dumps(d)), lambda d: VariantPyProjectToml({"variant": d}),
                      lambda d: VariantDistInfo(json.dumps(d), "lab"),
                      lambda d: load("doc.json").merge(VariantsJson(d)), lambda d: VariantsJson(d).get_provider_requires(),
                      lambda d: api.check_variant_supported(variant_info=VariantsJson(d)),
                      lambda d: api.make_variant_dist_info(desc([("a", "b", "c")]), VariantsJson(d),
                                                           expand_aot_plugin_properties=False),
                      lambda d: [list(VariantsJson(d).variants)]):
                try:
                    out.append(plain(f(d)))
                except Exception as e:  # noqa: BLE001
                    out.append(type(e).__name__)
        return out

    def listed(names):
        out = []
        for n in names:
            try:
                with ListPluginLoader([n]) as ld:
                    out.append(plain(ld.namespaces))
                    for which in ("get_all_configs", "get_supported_configs"):
                        try:
                            out.append(plain(getattr(ld, which)()))
                        except Exception as e:  # noqa: BLE001
                            out.append(type(e).__name__)
            except Exception as e:  # noqa: BLE001
                out.append(type(e).__name__)
        return out

    ops["parse"] = parse
    ops["listed"] = listed
    results = []
    for op, args, kw in job["plan"]:
        try:
            results.append(["ok", plain(ops[op](*args, **kw))])
        except Exception as e:  # noqa: BLE001
            results.append(["exc", type(e).__name__])
    with open(sys.argv[2], "wb") as f:
        f.write(json.dumps({"results": results, "stdout": [sys.stdout.encoding, sys.stdout.errors]}).encode())


if __name__ == "__main__":
    warnings.simplefilter("default") if False else None
    main()
