package vf;

final class Violation extends RuntimeException {
    Violation(String detail) { super(detail, null, false, false); }
}
