/* model of the part of AIX' <sys/ldr.h> that the generated code uses; see shim.c */
#ifndef MOCK_LDR_H
#define MOCK_LDR_H
struct ld_info {
    unsigned int  ldinfo_next;      /* offset to the next entry, 0: last */
    int           ldinfo_fd;
    void         *ldinfo_textorg;
    unsigned long ldinfo_textsize;
    void         *ldinfo_dataorg;
    unsigned long ldinfo_datasize;
    char          ldinfo_filename[2]; /* path name, NUL, member name, NUL */
};
#define L_GETINFO 2
#ifdef __cplusplus
extern "C"
#endif
int loadquery(int flags, void *buffer, unsigned int length);
#endif
