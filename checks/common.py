import json, math, os, subprocess, sys, tempfile
import numpy as np
from hypothesis import strategies as st
from vlib import build
from vlib.harness import Part, Violation, Discard
from vlib.fort import F
from vlib.kern import *
