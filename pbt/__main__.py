import sys

from pbt.core import main

sys.exit(main())
