/* Included at the end of every harness: native driver. */
#if !defined VF_CBMC
#undef abort
int main(int argc, char **argv) {
    const char *v = getenv("VF_VALUES");
    const char *l = getenv("VF_LOG");
    const char *f = getenv("VF_FUZZ");
    if(v) {
        vf_vals = fopen(v, "r");
        if(!vf_vals) return 76;
        alarm(10);
        VF_ENTRY();
        VF_DONE(0);
    }
    uint64_t seed = getenv("VF_SEED") ? strtoull(getenv("VF_SEED"), 0, 10) : 1;
    if(!f) {
        vf_state = seed;
        if(l) vf_logf = fopen(l, "w");
        alarm(10);
        VF_ENTRY();
        VF_DONE(0);
    }
    time_t end = time(0) + atoi(f);
    unsigned long runs = 0, nontrivial = 0;
    while(time(0) < end) {
        uint64_t s = seed * 1000003 + runs * 7919 + 17;
        pid_t p = fork();
        if(p == 0) {
            fclose(stderr);
            vf_state = s;
            alarm(5);
            VF_ENTRY();
            VF_DONE(0);
        }
        int st; waitpid(p, &st, 0);
        runs++;
        if(WIFEXITED(st) && (WEXITSTATUS(st) == 0)) { nontrivial++; continue; }
        if(WIFEXITED(st) && WEXITSTATUS(st) == 77) continue;
        printf("FOUND seed=%llu runs=%lu\n", (unsigned long long)s, runs);
        return 3;
    }
    printf("NOTHING runs=%lu nontrivial=%lu\n", runs, nontrivial);
    return 0;
}
#endif
