"""Builds NEMDE case files (as parsed by xmltodict) with arbitrary numbers in them."""
import os
import shutil
import tempfile


def many(rows):
    """A collection as xmltodict gives it: the element itself if there is just one."""
    rows = list(rows)
    return rows[0] if len(rows) == 1 else rows


TIMES = {'2024/07/10 12:05:00': 'NEMSPDOutputs_2024071009700.loaded', '2024/07/10 12:10:00': 'NEMSPDOutputs_2024071009800.loaded'}


def manager(E, doc, m=None, interval='2024/07/10 12:05:00', load=None):
    """A cache manager (by default a new one) that has loaded this case file.  In replay the file goes through real XML text."""
    import types
    import xmltodict
    from nempy.historical_inputs import xml_cache
    folder = m.cache_folder if m is not None else tempfile.mkdtemp(prefix='vf_case_')
    os.makedirs(folder, exist_ok=True)
    text = '<case/>' if E.symbolic else xmltodict.unparse(doc)
    parse, net = xmltodict.parse, xml_cache.requests
    try:
        with open(os.path.join(folder, TIMES[interval]), 'w') as f:
            f.write(text)
        if m is None:
            m = xml_cache.XMLCacheManager(folder)
        if E.symbolic:
            xmltodict.parse = lambda *a, **k: doc
        xml_cache.requests = types.SimpleNamespace(get=nothing)
        (load or m.load_interval)(interval)
    finally:
        xmltodict.parse, xml_cache.requests = parse, net
        shutil.rmtree(folder)
    return m


def nothing(*a, **k):
    raise OSError('the case file is in the cache, nothing is to be downloaded')


def at(*keys, value):
    d = value
    for k in reversed(keys):
        d = {k: d}
    return d


def deep(a, b):
    for k, v in b.items():
        if k in a and isinstance(a[k], dict) and isinstance(v, dict):
            deep(a[k], v)
        else:
            a[k] = v
    return a


def document(inputs, outputs):
    return {'NEMSPDCaseFile': {'NemSpdInputs': inputs, 'NemSpdOutputs': outputs}}
