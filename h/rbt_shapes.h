/* Generated by tools/mkrbt.py: all red-black trees of at most 7 nodes. */
#define NSHAPES 67
static const struct { int n, root; struct { signed char l, r, red; } nd[7]; } SHAPES[NSHAPES] = {
    {0, -1, {{0}}},
    {1, 0, {{-1, -1, 0}}},
    {2, 0, {{-1, 1, 0}, {-1, -1, 1}}},
    {2, 1, {{-1, -1, 1}, {0, -1, 0}}},
    {3, 1, {{-1, -1, 1}, {0, 2, 0}, {-1, -1, 1}}},
    {3, 1, {{-1, -1, 0}, {0, 2, 0}, {-1, -1, 0}}},
    {4, 1, {{-1, -1, 0}, {0, 2, 0}, {-1, 3, 0}, {-1, -1, 1}}},
    {4, 1, {{-1, -1, 0}, {0, 3, 0}, {-1, -1, 1}, {2, -1, 0}}},
    {4, 2, {{-1, 1, 0}, {-1, -1, 1}, {0, 3, 0}, {-1, -1, 0}}},
    {4, 2, {{-1, -1, 1}, {0, -1, 0}, {1, 3, 0}, {-1, -1, 0}}},
    {5, 1, {{-1, -1, 0}, {0, 3, 0}, {-1, -1, 1}, {2, 4, 0}, {-1, -1, 1}}},
    {5, 1, {{-1, -1, 0}, {0, 3, 0}, {-1, -1, 0}, {2, 4, 1}, {-1, -1, 0}}},
    {5, 2, {{-1, 1, 0}, {-1, -1, 1}, {0, 3, 0}, {-1, 4, 0}, {-1, -1, 1}}},
    {5, 2, {{-1, 1, 0}, {-1, -1, 1}, {0, 4, 0}, {-1, -1, 1}, {3, -1, 0}}},
    {5, 2, {{-1, -1, 1}, {0, -1, 0}, {1, 3, 0}, {-1, 4, 0}, {-1, -1, 1}}},
    {5, 2, {{-1, -1, 1}, {0, -1, 0}, {1, 4, 0}, {-1, -1, 1}, {3, -1, 0}}},
    {5, 3, {{-1, -1, 1}, {0, 2, 0}, {-1, -1, 1}, {1, 4, 0}, {-1, -1, 0}}},
    {5, 3, {{-1, -1, 0}, {0, 2, 1}, {-1, -1, 0}, {1, 4, 0}, {-1, -1, 0}}},
    {6, 1, {{-1, -1, 0}, {0, 3, 0}, {-1, -1, 0}, {2, 4, 1}, {-1, 5, 0}, {-1, -1, 1}}},
    {6, 1, {{-1, -1, 0}, {0, 3, 0}, {-1, -1, 0}, {2, 5, 1}, {-1, -1, 1}, {4, -1, 0}}},
    {6, 1, {{-1, -1, 0}, {0, 4, 0}, {-1, 3, 0}, {-1, -1, 1}, {2, 5, 1}, {-1, -1, 0}}},
    {6, 1, {{-1, -1, 0}, {0, 4, 0}, {-1, -1, 1}, {2, -1, 0}, {3, 5, 1}, {-1, -1, 0}}},
    {6, 2, {{-1, 1, 0}, {-1, -1, 1}, {0, 4, 0}, {-1, -1, 1}, {3, 5, 0}, {-1, -1, 1}}},
    {6, 2, {{-1, -1, 1}, {0, -1, 0}, {1, 4, 0}, {-1, -1, 1}, {3, 5, 0}, {-1, -1, 1}}},
    {6, 2, {{-1, 1, 0}, {-1, -1, 1}, {0, 4, 0}, {-1, -1, 0}, {3, 5, 1}, {-1, -1, 0}}},
    {6, 2, {{-1, -1, 1}, {0, -1, 0}, {1, 4, 0}, {-1, -1, 0}, {3, 5, 1}, {-1, -1, 0}}},
    {6, 3, {{-1, -1, 1}, {0, 2, 0}, {-1, -1, 1}, {1, 4, 0}, {-1, 5, 0}, {-1, -1, 1}}},
    {6, 3, {{-1, -1, 1}, {0, 2, 0}, {-1, -1, 1}, {1, 5, 0}, {-1, -1, 1}, {4, -1, 0}}},
    {6, 3, {{-1, -1, 0}, {0, 2, 1}, {-1, -1, 0}, {1, 4, 0}, {-1, 5, 0}, {-1, -1, 1}}},
    {6, 3, {{-1, -1, 0}, {0, 2, 1}, {-1, -1, 0}, {1, 5, 0}, {-1, -1, 1}, {4, -1, 0}}},
    {6, 4, {{-1, -1, 0}, {0, 2, 1}, {-1, 3, 0}, {-1, -1, 1}, {1, 5, 0}, {-1, -1, 0}}},
    {6, 4, {{-1, -1, 0}, {0, 3, 1}, {-1, -1, 1}, {2, -1, 0}, {1, 5, 0}, {-1, -1, 0}}},
    {6, 4, {{-1, 1, 0}, {-1, -1, 1}, {0, 3, 1}, {-1, -1, 0}, {2, 5, 0}, {-1, -1, 0}}},
    {6, 4, {{-1, -1, 1}, {0, -1, 0}, {1, 3, 1}, {-1, -1, 0}, {2, 5, 0}, {-1, -1, 0}}},
    {7, 1, {{-1, -1, 0}, {0, 3, 0}, {-1, -1, 0}, {2, 5, 1}, {-1, -1, 1}, {4, 6, 0}, {-1, -1, 1}}},
    {7, 1, {{-1, -1, 0}, {0, 4, 0}, {-1, 3, 0}, {-1, -1, 1}, {2, 5, 1}, {-1, 6, 0}, {-1, -1, 1}}},
    {7, 1, {{-1, -1, 0}, {0, 4, 0}, {-1, 3, 0}, {-1, -1, 1}, {2, 6, 1}, {-1, -1, 1}, {5, -1, 0}}},
    {7, 1, {{-1, -1, 0}, {0, 4, 0}, {-1, -1, 1}, {2, -1, 0}, {3, 5, 1}, {-1, 6, 0}, {-1, -1, 1}}},
    {7, 1, {{-1, -1, 0}, {0, 4, 0}, {-1, -1, 1}, {2, -1, 0}, {3, 6, 1}, {-1, -1, 1}, {5, -1, 0}}},
    {7, 1, {{-1, -1, 0}, {0, 5, 0}, {-1, -1, 1}, {2, 4, 0}, {-1, -1, 1}, {3, 6, 1}, {-1, -1, 0}}},
    {7, 2, {{-1, 1, 0}, {-1, -1, 1}, {0, 4, 0}, {-1, -1, 0}, {3, 5, 1}, {-1, 6, 0}, {-1, -1, 1}}},
    {7, 2, {{-1, 1, 0}, {-1, -1, 1}, {0, 4, 0}, {-1, -1, 0}, {3, 6, 1}, {-1, -1, 1}, {5, -1, 0}}},
    {7, 2, {{-1, 1, 0}, {-1, -1, 1}, {0, 5, 0}, {-1, 4, 0}, {-1, -1, 1}, {3, 6, 1}, {-1, -1, 0}}},
    {7, 2, {{-1, 1, 0}, {-1, -1, 1}, {0, 5, 0}, {-1, -1, 1}, {3, -1, 0}, {4, 6, 1}, {-1, -1, 0}}},
    {7, 2, {{-1, -1, 1}, {0, -1, 0}, {1, 4, 0}, {-1, -1, 0}, {3, 5, 1}, {-1, 6, 0}, {-1, -1, 1}}},
    {7, 2, {{-1, -1, 1}, {0, -1, 0}, {1, 4, 0}, {-1, -1, 0}, {3, 6, 1}, {-1, -1, 1}, {5, -1, 0}}},
    {7, 2, {{-1, -1, 1}, {0, -1, 0}, {1, 5, 0}, {-1, 4, 0}, {-1, -1, 1}, {3, 6, 1}, {-1, -1, 0}}},
    {7, 2, {{-1, -1, 1}, {0, -1, 0}, {1, 5, 0}, {-1, -1, 1}, {3, -1, 0}, {4, 6, 1}, {-1, -1, 0}}},
    {7, 3, {{-1, -1, 1}, {0, 2, 0}, {-1, -1, 1}, {1, 5, 0}, {-1, -1, 1}, {4, 6, 0}, {-1, -1, 1}}},
    {7, 3, {{-1, -1, 1}, {0, 2, 0}, {-1, -1, 1}, {1, 5, 0}, {-1, -1, 0}, {4, 6, 1}, {-1, -1, 0}}},
    {7, 3, {{-1, -1, 0}, {0, 2, 1}, {-1, -1, 0}, {1, 5, 0}, {-1, -1, 1}, {4, 6, 0}, {-1, -1, 1}}},
    {7, 3, {{-1, -1, 0}, {0, 2, 1}, {-1, -1, 0}, {1, 5, 0}, {-1, -1, 0}, {4, 6, 1}, {-1, -1, 0}}},
    {7, 4, {{-1, -1, 0}, {0, 2, 1}, {-1, 3, 0}, {-1, -1, 1}, {1, 5, 0}, {-1, 6, 0}, {-1, -1, 1}}},
    {7, 4, {{-1, -1, 0}, {0, 2, 1}, {-1, 3, 0}, {-1, -1, 1}, {1, 6, 0}, {-1, -1, 1}, {5, -1, 0}}},
    {7, 4, {{-1, -1, 0}, {0, 3, 1}, {-1, -1, 1}, {2, -1, 0}, {1, 5, 0}, {-1, 6, 0}, {-1, -1, 1}}},
    {7, 4, {{-1, -1, 0}, {0, 3, 1}, {-1, -1, 1}, {2, -1, 0}, {1, 6, 0}, {-1, -1, 1}, {5, -1, 0}}},
    {7, 4, {{-1, 1, 0}, {-1, -1, 1}, {0, 3, 1}, {-1, -1, 0}, {2, 5, 0}, {-1, 6, 0}, {-1, -1, 1}}},
    {7, 4, {{-1, 1, 0}, {-1, -1, 1}, {0, 3, 1}, {-1, -1, 0}, {2, 6, 0}, {-1, -1, 1}, {5, -1, 0}}},
    {7, 4, {{-1, -1, 1}, {0, -1, 0}, {1, 3, 1}, {-1, -1, 0}, {2, 5, 0}, {-1, 6, 0}, {-1, -1, 1}}},
    {7, 4, {{-1, -1, 1}, {0, -1, 0}, {1, 3, 1}, {-1, -1, 0}, {2, 6, 0}, {-1, -1, 1}, {5, -1, 0}}},
    {7, 5, {{-1, -1, 0}, {0, 3, 1}, {-1, -1, 1}, {2, 4, 0}, {-1, -1, 1}, {1, 6, 0}, {-1, -1, 0}}},
    {7, 5, {{-1, 1, 0}, {-1, -1, 1}, {0, 3, 1}, {-1, 4, 0}, {-1, -1, 1}, {2, 6, 0}, {-1, -1, 0}}},
    {7, 5, {{-1, 1, 0}, {-1, -1, 1}, {0, 4, 1}, {-1, -1, 1}, {3, -1, 0}, {2, 6, 0}, {-1, -1, 0}}},
    {7, 5, {{-1, -1, 1}, {0, -1, 0}, {1, 3, 1}, {-1, 4, 0}, {-1, -1, 1}, {2, 6, 0}, {-1, -1, 0}}},
    {7, 5, {{-1, -1, 1}, {0, -1, 0}, {1, 4, 1}, {-1, -1, 1}, {3, -1, 0}, {2, 6, 0}, {-1, -1, 0}}},
    {7, 5, {{-1, -1, 1}, {0, 2, 0}, {-1, -1, 1}, {1, 4, 1}, {-1, -1, 0}, {3, 6, 0}, {-1, -1, 0}}},
    {7, 3, {{-1, -1, 0}, {0, 2, 0}, {-1, -1, 0}, {1, 5, 0}, {-1, -1, 0}, {4, 6, 0}, {-1, -1, 0}}},
};
#define SHAPES_UPTO0 1
#define SHAPES_UPTO1 2
#define SHAPES_UPTO2 4
#define SHAPES_UPTO3 6
#define SHAPES_UPTO4 10
#define SHAPES_UPTO5 18
#define SHAPES_UPTO6 34
#define SHAPES_UPTO7 67
