$(eval $(call CHECK,c15,ubsan,$(B)/ubsan/repo/base/arithmetic.o,,UBSAN))
$(eval $(call CHECK,c16,ubsan,$(B)/ubsan/repo/base/arithmetic.o,,UBSAN))
$(eval $(call CHECK,c17,asan,$(ALL_asan),,ASAN))
BUF_ubsan := $(B)/ubsan/repo/base/arithmetic.o $(B)/ubsan/repo/runtime/buffer.o
$(eval $(call CHECK,c10,ubsan,$(BUF_ubsan),,UBSAN))
$(eval $(call CHECK,c09,ubsan,$(BUF_ubsan),,UBSAN))
$(eval $(call CHECK,c12,ubsan,$(BUF_ubsan),,UBSAN))
$(eval $(call CHECK,c11,ubsan,$(BUF_ubsan),,UBSAN))
$(eval $(call CHECK,c13,ubsan,$(BUF_ubsan),,UBSAN))
$(eval $(call CHECK,c14,sim,$(B)/sim/repo/base/thread_pool.o $(B)/sim/repo/base/thread_pool_impl.o,sim/sched,TSAN))
$(eval $(call CHECK,c05,asan,$(ALL_asan),,ASAN))
$(eval $(call CHECK,c06,asan,$(ALL_asan),,ASAN))
$(eval $(call CHECK,c01,asan,$(ALL_asan),,ASAN))
$(eval $(call CHECK,c02,asan,$(ALL_asan),,ASAN))
$(eval $(call CHECK,c03,asan,$(ALL_asan),,ASAN))
$(eval $(call CHECK,c18,asan,$(ALL_asan),,ASAN))
$(eval $(call CHECK,c19,asan,$(ALL_asan),,ASAN))
$(eval $(call CHECK,c20,asan,$(ALL_asan),,ASAN))
$(eval $(call CHECK,c23,asan,$(ALL_asan),,ASAN))
$(eval $(call CHECK,c24,asan,$(ALL_asan),,ASAN))
$(eval $(call CHECK,c22,asan,$(ALL_asan),,ASAN))
$(eval $(call CHECK,c26,asan,$(ALL_asan),,ASAN))
$(eval $(call CHECK,c07,asan,$(ALL_asan),,ASAN))
$(eval $(call CHECK,c08,asan,$(ALL_asan),,ASAN))
$(eval $(call CHECK,c21,asan,$(ALL_asan),,ASAN))
$(eval $(call CHECK,c04,simasan,$(ALL_simasan),sim/sched,ASAN))
$(eval $(call CHECK,c25,asan,$(ALL_asan),,ASAN))
