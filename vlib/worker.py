import sys

from vlib.harness import worker_main

worker_main(sys.argv[1:])
