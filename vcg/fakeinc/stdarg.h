typedef struct vcg_va *va_list;
