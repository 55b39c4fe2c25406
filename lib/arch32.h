#ifndef ZSERIO_RUNTIME_ARCH_H_INC
#define ZSERIO_RUNTIME_ARCH_H_INC
#define ZSERIO_RUNTIME_32BIT
#endif
