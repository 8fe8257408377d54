"""Value semantics of the problem description."""


class GeometricPosition:
    def __eq__(self, other):
        return self.coordinates == other.coordinates

    def __eq____alt2(self, other):
        return isinstance(other, type(self)) and self.coordinates == other.coordinates

    @optional
    def __ne__(self, other):
        return not (self.coordinates == other.coordinates)

    def __getitem__(self, item):
        return self.coordinates[item]


class Service:
    def __eq__(self, other):
        return (
            self.position == other.position
            and self.earliest == other.earliest
            and self.latest == other.latest
            and self.duration == other.duration
        )

    @optional
    def __ne__(self, other):
        return not (
            self.position == other.position
            and self.earliest == other.earliest
            and self.latest == other.latest
            and self.duration == other.duration
        )

    def __deepcopy__(self, memo):
        return self


class Position:
    SUBCLASSES = True

    def __deepcopy__(self, memo):
        return self


class Trip:
    def __deepcopy__(self, memo):
        return self


class Vehicle:
    def __deepcopy__(self, memo):
        return self


class Fleet:
    def __deepcopy__(self, memo):
        return self


class Job:
    def __deepcopy__(self, memo):
        return self


class Surface:
    @effects
    @returns
    def get_or_create_position(self, *args, **kwargs):
        position = self._build_position(*args, **kwargs)
        self.positions.add(position)
        return position
