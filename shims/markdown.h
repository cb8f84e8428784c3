// Stand-in for sundown's markdown.h (submodule absent): the part of its interface that /repo uses.
#ifndef VERIF_MARKDOWN_H
#define VERIF_MARKDOWN_H
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif

struct buf {
    uint8_t* data;
    size_t size;
    size_t asize;
    size_t unit;
};
typedef struct buf buf;

struct range {
    size_t loc;
    size_t len;
};
typedef struct range range;

struct src_map {
    void** item;
    size_t size;
    size_t asize;
};
typedef struct src_map src_map;

enum {
    MKDEXT_NO_INTRA_EMPHASIS = 1 << 0,
    MKDEXT_TABLES = 1 << 1,
    MKDEXT_FENCED_CODE = 1 << 2,
    MKDEXT_LAX_SPACING = 1 << 6
};

enum { MKD_LIST_ORDERED = 1, MKD_LI_BLOCK = 2 };

struct sd_callbacks {
    void (*blockcode)(struct buf* ob, const struct buf* text, const struct buf* lang, void* opaque);
    void (*blockquote)(struct buf* ob, const struct buf* text, void* opaque);
    void (*blockhtml)(struct buf* ob, const struct buf* text, void* opaque);
    void (*header)(struct buf* ob, const struct buf* text, int level, void* opaque);
    void (*hrule)(struct buf* ob, void* opaque);
    void (*list)(struct buf* ob, const struct buf* text, int flags, void* opaque);
    void (*listitem)(struct buf* ob, const struct buf* text, int flags, void* opaque);
    void (*paragraph)(struct buf* ob, const struct buf* text, void* opaque);
    void (*table)(struct buf* ob, const struct buf* header, const struct buf* body, void* opaque);
    void (*table_row)(struct buf* ob, const struct buf* text, void* opaque);
    void (*table_cell)(struct buf* ob, const struct buf* text, int flags, void* opaque);
    void (*blockquote_begin)(void* opaque);
    void (*list_begin)(int flags, void* opaque);
    void (*listitem_begin)(int flags, void* opaque);
    void (*block_did_parse)(const src_map* map, const uint8_t* txt_data, size_t size, void* opaque);
};
typedef struct sd_callbacks sd_callbacks;

struct sd_markdown;
typedef struct sd_markdown sd_markdown;

struct sd_markdown* sd_markdown_new(unsigned int extensions, size_t max_nesting, const struct sd_callbacks* callbacks, void* opaque);
void sd_markdown_render(struct buf* ob, const uint8_t* document, size_t doc_size, struct sd_markdown* md);
void sd_markdown_free(struct sd_markdown* md);
struct buf* bufnew(size_t unit);
void bufrelease(struct buf* b);

#ifdef __cplusplus
}
#endif
#endif
