// The animation command needs diagram code that is outside the monitored build.
namespace pm {
int main_animation(int, const char **) {
    return 1;
}
}
