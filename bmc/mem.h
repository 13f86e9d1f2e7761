/* the target's memory: a log of accesses over an arbitrary initial content */
#define NLOG 4
static uint32_t ma[NLOG], mv[NLOG];
static int msz[NLOG], mst[NLOG], mn;

static uint32_t mem_load(uint32_t a, int size)
{
    for (int i = NLOG - 1; i >= 0; i--)
        if (i >= mn)
            continue;
        else if (ma[i] == a && msz[i] == size)
            return mv[i];
        else
            MODEL(ma[i] - a >= (uint32_t) size && a - ma[i] >= (uint32_t) msz[i], "overlapping accesses");
    uint32_t v = in();
    if (size == 1)
        v &= 255;
    MODEL(mn < NLOG, "accesses");
    ma[mn] = a;
    mv[mn] = v;
    msz[mn] = size;
    mst[mn] = 0;
    mn++;
    return v;
}

static void mem_store(uint32_t a, uint32_t v, int size)
{
    for (int i = 0; i < NLOG && i < mn; i++)
        MODEL((ma[i] == a && msz[i] == size) || (ma[i] - a >= (uint32_t) size && a - ma[i] >= (uint32_t) msz[i]),
              "overlapping accesses");
    MODEL(mn < NLOG, "accesses");
    ma[mn] = a;
    mv[mn] = size == 1 ? v & 255 : v;
    msz[mn] = size;
    mst[mn] = 1;
    mn++;
}

/* what memory holds at a before the first store */
static uint32_t mem_initial(uint32_t a, int size)
{
    for (int i = 0; i < NLOG && i < mn; i++)
        if (ma[i] == a && msz[i] == size) {
            PROP(!mst[i], "memory is not overwritten before it is read");
            return mv[i];
        }
    return mem_load(a, size);
}

/* apart from the store of v to a (none if size is 0), only stack space below sp may change */
static void mem_frame(uint32_t sp, uint32_t a, uint32_t v, int size)
{
    int found = 0;
    for (int i = 0; i < NLOG && i < mn; i++)
        if (mst[i]) {
            if (size && ma[i] == a && msz[i] == size) {
                found = 1;
                if (i + 1 == mn || 1) {
                    int last = 1;
                    for (int j = i + 1; j < mn; j++)
                        if (mst[j] && ma[j] == a)
                            last = 0;
                    if (last)
                        PROP(mv[i] == (size == 1 ? v & 255 : v), "the stored value");
                }
            } else
                PROP(sp - ma[i] - 1 < 256, "no other memory is written");
        }
    PROP(!size || found, "the store takes place");
}
