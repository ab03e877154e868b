/* A custom C library for ZYAN_CUSTOM_LIBC (forced include): every name zycore documents, bound to replacement functions. */
#ifndef CUSTOM_LIBC_H
#define CUSTOM_LIBC_H
#include <errno.h>
#include <stdarg.h>
#include <stddef.h>
typedef va_list ZyanVAList;
typedef void ZyanFile;
#ifdef __cplusplus
extern "C" {
#endif
extern int cus_errno; extern ZyanFile *cus_stdin, *cus_stdout, *cus_stderr;
int cus_fputs(const char*, ZyanFile*); int cus_fputc(int, ZyanFile*); int cus_fprintf(ZyanFile*, const char*, ...); int cus_printf(const char*, ...); int cus_putc(int, ZyanFile*); int cus_puts(const char*);
int cus_scanf(const char*, ...); int cus_sscanf(const char*, const char*, ...); int cus_vsnprintf(char*, size_t, const char*, va_list);
void* cus_calloc(size_t, size_t); void cus_free(void*); char* cus_getenv(const char*); void* cus_malloc(size_t); void* cus_realloc(void*, size_t);
void* cus_memchr(const void*, int, size_t); int cus_memcmp(const void*, const void*, size_t); void* cus_memcpy(void*, const void*, size_t); void* cus_memmove(void*, const void*, size_t); void* cus_memset(void*, int, size_t);
char* cus_strcat(char*, const char*); char* cus_strchr(const char*, int); int cus_strcmp(const char*, const char*); int cus_strcoll(const char*, const char*); char* cus_strcpy(char*, const char*); size_t cus_strcspn(const char*, const char*);
size_t cus_strlen(const char*); char* cus_strncat(char*, const char*, size_t); int cus_strncmp(const char*, const char*, size_t); char* cus_strncpy(char*, const char*, size_t); char* cus_strpbrk(const char*, const char*);
char* cus_strrchr(const char*, int); size_t cus_strspn(const char*, const char*); char* cus_strstr(const char*, const char*); char* cus_strtok(char*, const char*); size_t cus_strxfrm(char*, const char*, size_t);
#ifdef __cplusplus
}
#endif
#define ZYAN_ERRNO cus_errno
#define ZYAN_VA_START va_start
#define ZYAN_VA_ARG va_arg
#define ZYAN_VA_END va_end
#define ZYAN_VA_COPY(dest, source) va_copy((dest), (source))
#define ZYAN_FPUTS cus_fputs
#define ZYAN_FPUTC cus_fputc
#define ZYAN_FPRINTF cus_fprintf
#define ZYAN_PRINTF cus_printf
#define ZYAN_PUTC cus_putc
#define ZYAN_PUTS cus_puts
#define ZYAN_SCANF cus_scanf
#define ZYAN_SSCANF cus_sscanf
#define ZYAN_VSNPRINTF cus_vsnprintf
#define ZYAN_STDIN cus_stdin
#define ZYAN_STDOUT cus_stdout
#define ZYAN_STDERR cus_stderr
#define ZYAN_CALLOC cus_calloc
#define ZYAN_FREE cus_free
#define ZYAN_GETENV cus_getenv
#define ZYAN_MALLOC cus_malloc
#define ZYAN_REALLOC cus_realloc
#define ZYAN_MEMCHR cus_memchr
#define ZYAN_MEMCMP cus_memcmp
#define ZYAN_MEMCPY cus_memcpy
#define ZYAN_MEMMOVE cus_memmove
#define ZYAN_MEMSET cus_memset
#define ZYAN_STRCAT cus_strcat
#define ZYAN_STRCHR cus_strchr
#define ZYAN_STRCMP cus_strcmp
#define ZYAN_STRCOLL cus_strcoll
#define ZYAN_STRCPY cus_strcpy
#define ZYAN_STRCSPN cus_strcspn
#define ZYAN_STRLEN cus_strlen
#define ZYAN_STRNCAT cus_strncat
#define ZYAN_STRNCMP cus_strncmp
#define ZYAN_STRNCPY cus_strncpy
#define ZYAN_STRPBRK cus_strpbrk
#define ZYAN_STRRCHR cus_strrchr
#define ZYAN_STRSPN cus_strspn
#define ZYAN_STRSTR cus_strstr
#define ZYAN_STRTOK cus_strtok
#define ZYAN_STRXFRM cus_strxfrm
#endif
