"""What the one harness binary is made of."""
import os
UNITS = ["main.cpp", "tree.cpp", "probe.cpp", "zoo.cpp", "vclock.cpp", "loop.cpp", "film.cpp", "registry.cpp", "scene.cpp", "sampling.cpp", "transport.cpp", "obj.cpp", "life.cpp", "picture.cpp", "repro.cpp"]
HERE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness")


def plugins():
    import build
    return [("objloader_tinyobjloader", os.path.join(build.REPO, "plugin", "objloader_tinyobjloader", "objloader_tinyobjloader.cpp"), ["/opt/vp/external/tinyobjloader"]), ("plugin_a", os.path.join(HERE, "plugin_a.cpp"), []), ("plugin_b", os.path.join(HERE, "plugin_b.cpp"), [])]
