from rvmon.core import main

main()
