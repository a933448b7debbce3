// The animation command takes part only in builds that simulate drawing (world C20).
#ifndef SIM_DRAW
namespace pm {
int main_animation(int, const char **) {
    return 1;
}
}  // namespace pm
#endif
