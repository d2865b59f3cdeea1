"""setup_cmd: compile the Java override once (every check also does this lazily)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vp
vp.java_classes()
