python3 dev.py "$@" 2>&1 | sed 's/lower_upper_lemire(data_t\*,int,int,data_t\*,data_t\*)/lem/; s/\/tmp\/w\/.*vtc\([0-9]*\).smt2/\1/' | cut -c1-250
