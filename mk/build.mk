# make -f mk/build.mk REPO=/repo OUT=/verif/build VARIANT=asan H=bitset
V := $(abspath $(dir $(lastword $(MAKEFILE_LIST)))/..)
REPO ?= /repo
OUT ?= $(V)/build
VARIANT ?= asan
CXX := g++
O := $(OUT)/$(VARIANT)

DIRS := $(filter-out %/O.Common,$(patsubst %/,%,$(sort $(dir $(wildcard $(REPO)/src/*/*.cpp)))))
DIRS := $(foreach d,$(DIRS),$(if $(findstring /O.,$(d)),,$(d)))
SRCS := $(foreach d,$(DIRS),$(wildcard $(d)/*.cpp)) $(wildcard $(REPO)/src/*.cpp)
LOBJ := $(patsubst $(REPO)/%.cpp,$(O)/lib/%.o,$(SRCS))

INC := -I$(O)/gen -I$(REPO)/src $(addprefix -I,$(DIRS)) \
  -I/usr/include/epics/os/Linux -I/usr/include/epics/compiler/gcc -I/opt/vp/epics-base/include -I$(V)/mc
BASE := -fmax-errors=4 -ftrack-macro-expansion=0 -std=gnu++17 -pthread -D_GNU_SOURCE -DUNIX -Dlinux -Wno-deprecated-declarations -w
FL_asan := -O1 -g1 -fno-omit-frame-pointer -fsanitize=address -D_GLIBCXX_ASSERTIONS
LD_asan := -fsanitize=address
FL_sched := -DSCHED -O1 -g1 -fno-omit-frame-pointer -fsanitize=thread --param tsan-distinguish-volatile=0
LD_sched := -rdynamic -Wl,--wrap=memcpy -Wl,--wrap=memmove -Wl,--wrap=memset -Wl,--wrap=__cxa_allocate_exception
FL_tsan := -O1 -g1 -fsanitize=thread
LD_tsan := -fsanitize=thread
FL := $(FL_$(VARIANT)) $(HOOKS)
LD := $(LD_$(VARIANT))
# explorer and scheduler runtime are never instrumented
RTFL := -std=gnu++17 -O2 -g1 -pthread -D_GNU_SOURCE -DUNIX -Dlinux -w
RT_asan := $(O)/rt/mc.o
RT_sched := $(O)/rt/mc.o $(O)/rt/csched.o $(O)/rt/epicsmodel.o
RT_tsan := $(O)/rt/mc.o

# objects remember the tree they were built from
ST := $(O)/tree.stamp
$(shell mkdir -p $(O); echo '$(REPO)' | cmp -s - $(ST) || echo '$(REPO)' > $(ST))

all: $(O)/h_$(H)
lib: $(O)/libpvd.a

$(O)/gen/pv/pvdVersionNum.h: $(REPO)/src/pv/pvdVersionNum.h@
	@mkdir -p $(dir $@)
	sed -e 's/@EPICS_PVD_MAJOR_VERSION@/8/;s/@EPICS_PVD_MINOR_VERSION@/0/;s/@EPICS_PVD_MAINTENANCE_VERSION@/7/;s/@EPICS_PVD_DEVELOPMENT_FLAG@/1/' $< > $@

$(LOBJ): $(O)/lib/%.o: $(REPO)/%.cpp $(ST) | $(O)/gen/pv/pvdVersionNum.h
	@mkdir -p $(dir $@)
	$(CXX) $(BASE) $(FL) -DPVD_INTERNAL $(INC) -MMD -c $< -o $@

$(O)/h/%.o: $(V)/h/%.cpp $(ST) | $(O)/gen/pv/pvdVersionNum.h
	@mkdir -p $(dir $@)
	$(CXX) $(BASE) $(FL) $(INC) -I$(V)/h -MMD -c $< -o $@

$(O)/rt/%.o: $(V)/mc/%.cpp $(wildcard $(V)/mc/*.h)
	@mkdir -p $(dir $@)
	$(CXX) $(RTFL) -I/usr/include/epics/os/Linux -I/usr/include/epics/compiler/gcc -I/opt/vp/epics-base/include -I$(V)/mc -MMD -c $< -o $@

# linking against an archive keeps out objects a harness does not need
$(O)/libpvd.a: $(LOBJ)
	@rm -f $@
	ar rcs $@ $(LOBJ)

$(O)/h_%: $(O)/h/%.o $(O)/libpvd.a $(RT_$(VARIANT))
	$(CXX) -pthread $(LD) -o $@ $< $(RT_$(VARIANT)) -Wl,--whole-archive $(O)/libpvd.a -Wl,--no-whole-archive -lCom -ldl

.SECONDARY:
-include $(shell find $(O) -name '*.d' 2>/dev/null)
