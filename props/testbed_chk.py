"""The testbed: its API gives what the handlers give, and what is saved in it
is found under its link."""
import json
import os
import re
import sys

import django
from django.conf import settings

from .anyinput_chk import HANDLERS
from .common_chk import uniform
from openformats.strings import OpenString

REPO = os.environ.get("VP_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [REPO, os.path.join(HERE, "stand_in")]
os.chdir(REPO)      # the folder it is started in

settings.configure(
    DEBUG=False, ALLOWED_HOSTS=["*"], SECRET_KEY="x", ROOT_URLCONF="testbed.urls",
    INSTALLED_APPS=["django.contrib.staticfiles", "testbed.main"],
    MIDDLEWARE=[], STATIC_URL="/static/", LOGGING_CONFIG=None, USE_TZ=False,
    DATABASES={"default": {"ENGINE": "django.db.backends.sqlite3", "NAME": ":memory:"}},
    TEMPLATES=[{"BACKEND": "django.template.backends.django.DjangoTemplates",
                "DIRS": [os.path.join(REPO, "testbed", "templates")]}])
django.setup()

from django.core.urlresolvers import resolve           # noqa: E402
from django.db import connection                       # noqa: E402
from django.http import Http404                        # noqa: E402
from django.test import RequestFactory                 # noqa: E402
from testbed.main.models import Payload                # noqa: E402

with connection.schema_editor() as editor:
    editor.create_model(Payload)
ASK = RequestFactory()
FACTS = tuple(OpenString.DEFAULTS)


def visit(request):
    view, args, kwargs = resolve(request.path)
    return view(request, *args, **kwargs)


def api(**payload):
    reply = visit(ASK.post("/api/", data=json.dumps(payload),
                           content_type="application/json"))
    return json.loads(reply.content.decode("utf-8"))


def outcome(fn):
    try:
        return fn(), ""
    except Exception as e:
        return None, "%s: %s" % (type(e).__name__, e)


def shows(trace, error):
    """Whether a traceback shows the error: its class, and its message if that is
    ASCII (PyPy's own errors about JSON can have strings that are broken)."""
    name, message = error.split(": ", 1)
    return trace.startswith("Traceback") and name in trace and (
        "Unexpected" in message or message in trace)


def facts(strings):
    out = []
    for s in strings:
        one = {k: getattr(s, k) for k in FACTS}
        one.update(id=s.template_replacement, template_replacement=s.template_replacement,
                   key=s.key, pluralized=s.pluralized,
                   strings={str(r): t for r, t in
                            (s.string.items() if s.pluralized else {5: s.string}.items())})
        out.append(one)
    return json.loads(json.dumps(out))


def check(case, rec):
    cls = HANDLERS[case["format"]]
    if case["format"] == "unescaped":      # goes by the name of the other one
        cls = HANDLERS["android"]
    doc = uniform(case["doc"], case["nl"])
    rec.show("%s\n%s" % (cls.name, doc))

    chosen = api(action="choose_handler", handler=cls.name)
    rec.eq(chosen["handler"], cls.name, "the handler chosen")

    parsed, error = outcome(lambda: (lambda t, s: (t, list(s)))(*cls().parse(doc)))
    got = api(action="parse", handler=cls.name, source=doc)
    rec.eq((got["action"], got["compiled"], got["compile_error"]), (None, "", ""),
           "of the reply to parse")
    if error:
        rec.label(cls.name + " refused")
        rec.nt()
        rec.eq((got["template"], got["stringset"]), ("", []), "nothing is parsed")
        rec.true(shows(got["parse_error"], error),
                 "the error of the handler is shown", error=error, got=got["parse_error"])
        payload = {"handler": cls.name, "source": doc}
    else:
        template, strings = parsed
        rec.label(cls.name + " parsed")
        rec.nt(bool(strings))
        rec.eq(got["parse_error"], "", "no error is shown")
        rec.eq(got["stringset"], facts(strings), "the strings")
        if case["format"] == "po":
            template = str(template)
            rec.eq(got["template"].replace("\r\n", "\n").strip("\n"),
                   template.replace("\r\n", "\n").strip("\n"), "the template")
            template = got["template"]
        else:
            rec.eq(got["template"], template, "the template")

        # edited by the user, or left out
        edited = got["stringset"]
        if case["drop"] and edited:
            del edited[case["drop"] % len(edited)::case["drop"] + 1]
        for s in edited:
            s["strings"] = {r: t + case["suffix"] for r, t in s["strings"].items()}
        if case["empty"]:
            for s in edited[::2]:
                s["strings"] = dict.fromkeys(s["strings"], "")
        if case["damage"] == "hash":
            template = template.replace("_tr", "")
        elif case["damage"] == "template":
            template = template[:len(template) // 2]
        again = [OpenString(s["key"], {int(r): t for r, t in s["strings"].items()},
                            pluralized=s["pluralized"], **{k: s[k] for k in FACTS})
                 for s in edited]
        want, error = outcome(lambda: cls().compile(template, again))
        payload = {"handler": cls.name, "source": doc, "template": template,
                   "stringset": json.loads(json.dumps(edited))}
        got = api(action="compile", handler=cls.name, stringset=edited,
                  template=template)
        rec.eq(got["action"], None, "of the reply to compile")
        if error:
            rec.label("compile fails")
            rec.eq(got["compiled"], "", "nothing is compiled")
            rec.true(shows(got["compile_error"], error),
                     "the error of compile is shown", error=error, got=got["compile_error"])
        else:
            rec.label("compiled")
            rec.eq(got, {"action": None, "compiled": want, "compile_error": ""},
                   "what is compiled")

    if not case["save"]:
        return
    rec.label("saved")
    stored = json.dumps(payload, indent=case["spaces"], ensure_ascii=False)
    link = visit(ASK.post("/save/", {"payload": stored}))["Location"]
    if case["again"]:
        rec.eq(visit(ASK.post("/save/", {"payload": stored}))["Location"], link,
               "the link when saved again")
    links = [link]
    for change in "x", "\u00e9", "\u4e2d", "\U0001f600":
        other = dict(payload, source=doc[:case["at"]] + change + doc[case["at"]:])
        links.append(visit(ASK.post("/save/", {"payload": json.dumps(
            other, ensure_ascii=False)}))["Location"])
    rec.eq(len(set(links)), len(links), "other states have other links")
    page = visit(ASK.get(link)).render()
    rec.eq(page.status_code, 200, "the page of the link")
    rec.eq(page.context_data["payload_json"], stored, "the state that was saved")
    shown = re.search("payload_json = JSON.parse[(]'(.*)'[)]", page.content.decode("utf-8"))
    rec.true(shown, "the page has the state")
    rec.eq(json.loads(re.sub(r"\\u([0-9A-F]{4})", lambda m: chr(int(m.group(1), 16)),
                             shown.group(1))), payload, "the state on the page")
    rec.eq(page.context_data["handlers"], sorted(page.context_data["handlers"]),
           "the formats are sorted")
    rec.true(cls.name in page.context_data["handlers"], "the format can be chosen")
    wrong = link[:-1] + ("0" if link[-1] != "0" else "1")
    rec.raises(Http404, lambda: visit(ASK.get(wrong)), "no other link leads to it")
    Payload.objects.all().delete()
