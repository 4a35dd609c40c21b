from .catalog import CATALOG

N = 300000
PROPS = {
    "P01": dict(module="transcriber", quick=40000, thorough=2000000),
    "P02": dict(module="openstring", quick=20000, thorough=N),
    "P03": dict(module="compiler", quick=10000, thorough=N),
    "P04": dict(module="history", quick=10000, thorough=N),
    "P05": dict(module="xmlscan", quick=16000, thorough=500000),
    "P06": dict(module="anyinput", quick=24000, thorough=N),
    "P07": dict(module="icu", quick=16000, thorough=N),
    "P10": dict(module="plaintext", quick=20000, thorough=500000),
    "P11": dict(module="srt", quick=20000, thorough=500000),
    "P12": dict(module="vtt", quick=20000, thorough=500000),
    "P13": dict(module="suberr", quick=20000, thorough=500000),
    "P20": dict(module="dumbjson", quick=20000, thorough=500000),
    "P21": dict(module="jsonkv", quick=16000, thorough=N),
    "P22": dict(module="jsonsync", quick=16000, thorough=N),
    "P23": dict(module="arb", quick=12000, thorough=N),
    "P24": dict(module="structjson", quick=12000, thorough=N),
    "P25": dict(module="structsync", quick=12000, thorough=N),
    "P26": dict(module="chrome", quick=12000, thorough=N),
    "P30": dict(module="android", quick=12000, thorough=N),
    "P31": dict(module="androidcomp", quick=12000, thorough=N),
    "P32": dict(module="androidesc", quick=16000, thorough=500000),
    "P33": dict(module="androidbad", quick=12000, thorough=N),
    "P34": dict(module="androidunesc", quick=10000, thorough=N),
    "P35": dict(module="betaandroid", quick=12000, thorough=N),
    "P40": dict(module="po", quick=7000, thorough=N),
    "P41": dict(module="posync", quick=6000, thorough=N),
    "P42": dict(module="pobad", quick=10000, thorough=N),
    "P50": dict(module="yaml", quick=6000, thorough=N),
    "P51": dict(module="yamlcomp", quick=6000, thorough=N),
    "P52": dict(module="yamlplural", quick=5000, thorough=N),
    "P53": dict(module="yamlgen", quick=6000, thorough=N),
    "P54": dict(module="yamlbad", quick=8000, thorough=N),
    "P60": dict(module="stringsdict", quick=6000, thorough=N),
    "P61": dict(module="stringsdictbad", quick=8000, thorough=N),
    "P62": dict(module="customxml", quick=8000, thorough=N),
    "P63": dict(module="customxmlbad", quick=8000, thorough=N),
    "P70": dict(module="mdany", quick=16000, thorough=N),
    "P71": dict(module="mdmodel", quick=8000, thorough=N),
    "P72": dict(module="mdheader", quick=8000, thorough=N),
    "P73": dict(module="mdv1head", quick=8000, thorough=N),
    "P80": dict(module="docx", quick=4000, thorough=N),
    "P81": dict(module="docxtrans", quick=4000, thorough=N),
    "P82": dict(module="pptx", quick=3000, thorough=N),
    "P83": dict(module="pptxtrans", quick=3000, thorough=N),
    "P84": dict(module="xlsx", quick=3000, thorough=N),
    "P85": dict(module="officefiles", quick=2000, thorough=N),
    "P90": dict(module="testbed", quick=4000, thorough=N),
    "P86": dict(module="indesign", quick=6000, thorough=N),
}
for _id in PROPS:
    PROPS[_id]["assumptions"] = CATALOG.get(_id, {}).get("assumptions", [])
RULES = {_id: CATALOG.get(_id, {}).get("rule", "") for _id in PROPS}
