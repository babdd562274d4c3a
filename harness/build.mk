# Builds the server's sources (taken from $(REPO)) plus one harness binary per
# check, out of tree.  V selects the variant: std (as shipped) or tsi (memory
# accesses instrumented and routed to the controlled scheduler).
REPO ?= /repo
H := $(dir $(abspath $(lastword $(MAKEFILE_LIST))))
V ?= std
B ?= $(abspath $(H)../.build/$(V))
CXX := g++
COMMON := -pthread -g1 -Wno-unused-result -Wno-format-truncation -Wno-psabi -Wno-deprecated-declarations -w -fno-access-control
REPOFLAGS := -I $(REPO)/include -std=c++11 -DCOMPILE_TIME=1700000000 -DTT_BRANCH='"x"' -DTT_COMMIT='"x"' -O3 -ffast-math
HFLAGS := -I $(H) -I $(REPO)/include -I $(REPO)/src -std=c++17 -DCOMPILE_TIME=1700000000 -DTT_BRANCH='"x"' -DTT_COMMIT='"x"' -O1
ifeq ($(V),tsi)
REPOFLAGS := $(subst -O3,-O1,$(REPOFLAGS)) -fsanitize=thread --param tsan-instrument-func-entry-exit=0
HFLAGS += -DVH_SCHED -U_FORTIFY_SOURCE -fno-builtin-memcpy -fno-tree-loop-distribute-patterns
REPOFLAGS += -U_FORTIFY_SOURCE
endif
ifeq ($(V),asan)
REPOFLAGS := $(subst -O3,-O1,$(REPOFLAGS)) -fsanitize=address
HFLAGS += -fsanitize=address -DVH_ASAN
LF := -fsanitize=address
endif

SRCS := $(filter-out $(REPO)/src/main.cpp,$(wildcard $(REPO)/src/*.cpp $(REPO)/src/*/*.cpp))
OBJS := $(patsubst $(REPO)/src/%.cpp,$(B)/src/%.o,$(SRCS))
LIBH := $(B)/h/vh.o $(B)/h/clock.o $(B)/h/boot.o
ifeq ($(V),tsi)
LIBH += $(B)/h/ctl.o $(B)/h/crash.o
WRAP := -Wl,--wrap=_ZN2tt10spin_yieldEj
endif

$(B)/c18: $(B)/h/c18_i.o

.SECONDARY:
$(B)/src/%.o: $(REPO)/src/%.cpp
	@mkdir -p $(@D)
	$(CXX) $(COMMON) $(REPOFLAGS) -MMD -MP -c -o $@ $<

$(B)/h/boot.o: $(H)boot.cpp $(H)boot_manual.cpp
	@mkdir -p $(@D)
	$(CXX) $(COMMON) $(HFLAGS) -MMD -MP -c -o $@ $(H)boot.cpp 2>$(B)/boot.log || $(CXX) $(COMMON) $(HFLAGS) -MMD -MP -c -o $@ $(H)boot_manual.cpp

# parts of a harness that instantiate the server's templates are compiled like the server
$(B)/h/%_i.o: $(H)%_i.cpp
	@mkdir -p $(@D)
	$(CXX) $(COMMON) $(REPOFLAGS) -I $(H) -MMD -MP -c -o $@ $<

$(B)/h/%.o: $(H)%.cpp
	@mkdir -p $(@D)
	$(CXX) $(COMMON) $(HFLAGS) -MMD -MP -c -o $@ $<

$(B)/%: $(B)/h/%.o $(OBJS) $(LIBH)
	$(CXX) -pthread -rdynamic $(LF) $(WRAP) -o $@ $^ -lz -ldl

-include $(wildcard $(B)/src/*.d $(B)/src/*/*.d $(B)/h/*.d)
