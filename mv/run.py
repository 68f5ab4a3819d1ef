import sys

from mv.core import main

sys.exit(main())
