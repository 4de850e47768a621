"""Harnesses (what is compiled together) and properties (what is run for each)."""
import os
REPO = os.environ.get("VERIF_REPO", "/repo")

LIB = dict(groups=["commons"])
WRAP = ("select epoll_wait epoll_create epoll_ctl socket bind listen accept connect recv send close fcntl "
        "setsockopt gethostbyname time fopen opendir").split()
SRV = dict(groups=["commons", "server"],
           hflags=["-I" + REPO + "/src/viriatum"], ldflags=["-Wl,--wrap=" + w for w in WRAP])

HARNESSES = {
    "structures": dict(LIB, sources=["structures.c"]),
    "files": dict(SRV, sources=["sim.c", "files.c"]),
    "proxy": dict(SRV, sources=["sim.c", "proxy.c"]),
    "service": dict(SRV, sources=["sim.c", "service.c"]),
    "framing": dict(SRV, sources=["sim.c", "framing.c"]),
    "config": dict(SRV, sources=["sim.c", "config.c"]),
    "codecs": dict(LIB, sources=["codecs.c"]),
    "streams": dict(LIB, sources=["streams.c"]),
    "threads": dict(LIB, sources=["threads.c"], san=[], opt=["-O1", "-fsanitize=thread", "-fno-builtin"],
                    ldflags=["-Wl,--wrap=malloc", "-Wl,--wrap=free", "-Wl,--wrap=calloc", "-Wl,--wrap=realloc"]),
    "holding": dict(SRV, sources=["sim.c", "holding.c"]),
    "http": dict(SRV, sources=["sim.c", "http.c"]),
    "tls": dict(SRV, sources=["sim.c", "tls.c"], ldflags=SRV["ldflags"] + ["-Wl,--wrap=SSL_set_fd"]),
    "modules": dict(SRV, groups=["commons", "server", "mod_gif", "mod_diag", "mod_lua"], sources=["sim.c", "modules.c"],
                    ldflags=SRV["ldflags"] + ["-Wl,--wrap=dlopen", "-Wl,--wrap=dlsym", "-Wl,--wrap=dlclose", "-Wl,--wrap=dlerror", "-Wl,--allow-multiple-definition"],
                    libs=["-llua5.1", "-lpcre", "-lssl", "-lcrypto", "-lpthread", "-ldl", "-lm"]),
    "params": dict(SRV, sources=["sim.c", "params.c"]),
    "texts": dict(LIB, sources=["texts.c"], ldflags=["-Wl,--wrap=fopen"]),
}

for _n in ("http", "service", "proxy", "tls", "holding"):  # the same, built for systems without epoll
    HARNESSES[_n + "_select"] = dict(HARNESSES[_n], defines=["-DMC_NO_EPOLL"], variant_of=_n)
for _n in ("http", "files", "framing"):  # the same, built without any of the optional libraries
    HARNESSES[_n + "_minimal"] = dict(HARNESSES[_n], defines=["-DMC_MINIMAL", "-DMC_NO_EPOLL"], variant_of=_n)

PROPS = {
    "C01": dict(level="model_checking", runs=[("structures", "C01.")]),
    "C02": dict(level="model_checking", runs=[("structures", "C02.")]),
    "C03": dict(level="model_checking", runs=[("structures", "C03.")]),
    "C04": dict(level="model_checking", runs=[("structures", "C04.")]),
    "H01": dict(level="exploration", runs=[("http", "H01.")]),
    "H02": dict(level="exploration", runs=[("framing", "H02.")]),
    "H03": dict(level="exploration", runs=[("http", "H03.")]),
    "H04": dict(level="exploration", runs=[("http", "H04.")]),
    "H05": dict(level="exploration", runs=[("http", "H05.")]),
    "H06": dict(level="fault_enumeration", runs=[("http", "H06.")]),
    "H07": dict(level="exploration", runs=[("http", "H07.")]),
    "F01": dict(level="exploration", runs=[("files", "F01.")]),
    "F02": dict(level="exploration", runs=[("files", "F02.")]),
    "F03": dict(level="exploration", runs=[("files", "F03.")]),
    "F04": dict(level="exploration", runs=[("files", "F04.")]),
    "F05": dict(level="exploration", runs=[("files", "F05.")]),
    "F06": dict(level="exploration", runs=[("files", "F06.")]),
    "X01": dict(level="exploration", runs=[("proxy", "X01.")]),
    "X02": dict(level="fault_enumeration", runs=[("proxy", "X02.")]),
    "X03": dict(level="exploration", runs=[("proxy", "X03.")]),
    "X04": dict(level="exploration", runs=[("proxy", "X04.")]),
    "S01": dict(level="exploration", runs=[("service", "S01.")]),
    "S02": dict(level="exploration", runs=[("service", "S02.")]),
    "S03": dict(level="fault_enumeration", runs=[("service", "S03.")]),
    "S04": dict(level="exploration", runs=[("service", "S04.")]),
    "S07": dict(level="exploration", runs=[("holding", "S07."), ("tls", "S07.")]),
    "P01": dict(level="exploration", runs=[
        ("service_select", "P01."), ("service_select", "S01.two"), ("service_select", "S01.blocked"), ("service_select", "S01.endless"), ("service_select", "S01.history"), ("service_select", "S03.interrupt"), ("service_select", "S02.stop"),
        ("http_select", "H01.one"), ("http_select", "H04."), ("http_select", "H06."),
        ("proxy_select", "X01.sequence2"), ("proxy_select", "X02.transport"), ("proxy_select", "X02.leaving"), ("proxy_select", "X04."),
        ("tls_select", "S06.blocked"), ("tls_select", "S06.slow"), ("tls_select", "S06.pieces"), ("tls_select", "S06.crowd"), ("tls_select", "S06.proxied"), ("tls_select", "S06.leaving"), ("tls_select", "S07."),
        ("holding_select", "S07.client")]),
    "P02": dict(level="exploration", runs=[
        ("http_minimal", "H01."), ("http_minimal", "H03."), ("http_minimal", "H04."), ("http_minimal", "H05."), ("http_minimal", "H06."), ("http_minimal", "H07."),
        ("framing_minimal", "H02.sizes"), ("framing_minimal", "H02.chunks"), ("files_minimal", "F01."), ("files_minimal", "F02."), ("files_minimal", "F03."), ("files_minimal", "F04."), ("files_minimal", "F06.")]),
    "M01": dict(level="exploration", runs=[("modules", "M01.")]),
    "M02": dict(level="exploration", runs=[("modules", "M02.")]),
    "D01": dict(level="exploration", runs=[("codecs", "D01.")], timeout=120),
    "D02": dict(level="exploration", runs=[("codecs", "D02.")]),
    "D03": dict(level="model_checking", runs=[("streams", "D03.")]),
    "D04": dict(level="exploration", runs=[("streams", "D04.")]),
    "D05": dict(level="exploration", runs=[("codecs", "D05.")]),
    "D06": dict(level="exploration", runs=[("texts", "D06.")]),
    "D07": dict(level="exploration", runs=[("texts", "D07.")]),
    "D08": dict(level="exploration", runs=[("params", "D08.")]),
    "R01": dict(level="exploration", runs=[("files", "R01.")]),
    "T01": dict(level="exploration", runs=[("threads", "T01.")]),
    "R02": dict(level="exploration", runs=[("config", "R02.")]),
    "S06": dict(level="fault_enumeration", runs=[("tls", "S06.")]),
    "S05": dict(level="fault_enumeration", runs=[("config", "S05.")]),
}
