from checks.c10 import make_jobs, BOUNDS, ASSUMPTIONS, HALVES


def jobs(tier):
    return make_jobs(tier, ["SinglyCircularLinkedList", "DoublyCircularLinkedList"])
