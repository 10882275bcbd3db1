# Builds the simulator from the sources in $(REPO) as they are now.
REPO ?= /repo
OUT ?= /verif/build/sim
PREC ?=
SIM := $(dir $(abspath $(lastword $(MAKEFILE_LIST))))
REPOSRC := $(shell find $(REPO)/src -name '*.cpp' | sort) $(REPO)/cli/OnexCLI.cpp $(shell find $(REPO)/cli -name '*.cpp' ! -name OnexCLI.cpp | sort)
REPOOBJ := $(patsubst $(REPO)/%.cpp,$(OUT)/repo/%.o,$(REPOSRC))
REPOHDR := $(shell find $(REPO)/src $(REPO)/cli -name '*.hpp' -o -name '*.h')
SIMSRC := seams common driver_lib driver_cli exec model ref plan gen main
SIMOBJ := $(patsubst %,$(OUT)/%.o,$(SIMSRC))
SAN := -fsanitize=address -fno-omit-frame-pointer
INC := -I$(OUT)/gen -I$(SIM)stub -I$(REPO)/src -I$(REPO)
$(OUT)/onexsim: $(REPOOBJ) $(SIMOBJ)
	g++ $(SAN) -g -o $@ $^ -ldl -Wl,--wrap=malloc,--wrap=free,--wrap=calloc,--wrap=realloc
$(OUT)/gen/config.hpp:
	@mkdir -p $(@D)
	@if [ -n "$(PREC)" ]; then echo '#define SINGLE_PRECISION' > $@; else echo > $@; fi
$(OUT)/repo/%.o: $(REPO)/%.cpp $(REPOHDR) $(OUT)/gen/config.hpp $(SIM)build.mk
	@mkdir -p $(@D)
	g++ -std=c++11 -O0 -g1 -w -D_GLIBCXX_ASSERTIONS $(SAN) $(INC) $(if $(findstring cli/OnexCLI,$<),-Dmain=onex_cli_main,) -c -o $@ $<
$(OUT)/driver_lib.o: $(SIM)driver_lib.cpp $(wildcard $(SIM)*.h) $(REPOHDR) $(OUT)/gen/config.hpp
	@mkdir -p $(@D)
	g++ -std=c++17 -O1 -g1 -w -D_GLIBCXX_ASSERTIONS $(SAN) $(INC) -I$(SIM) -c -o $@ $<
$(OUT)/%.o: $(SIM)%.cpp $(wildcard $(SIM)*.h) $(SIM)build.mk
	@mkdir -p $(@D)
	g++ -std=c++17 -O2 -g1 -Wall -Wno-misleading-indentation -fno-omit-frame-pointer -I$(SIM) -I$(SIM)stub -c -o $@ $<
